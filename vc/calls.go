package main

// Calls, contracts, exits, loop invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func contractName(fn *ssa.Function) string {
	if fn.Pkg == mainSSA || fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() == mainPkg {
		return fullFnName(fn)
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func sigParams(fn *ssa.Function) []types.Type {
	var out []types.Type
	for _, p := range fn.Params {
		out = append(out, p.Type())
	}
	return out
}

func sigResults(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) setResult(st *State, reg ssa.Value, res []Val) {
	if reg == nil {
		return
	}
	if len(res) == 1 {
		st.top().regs[reg] = res[0]
	} else {
		st.top().regs[reg] = Tuple(res)
	}
}

func (x *Exec) call(st *State, reg ssa.Value, c *ssa.CallCommon) []*State {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, reg, b, c)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(st, a))
	}
	if c.IsInvoke() {
		return x.invoke(st, reg, c, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, isClo := c.Value.(*ssa.MakeClosure); !isClo {
			return x.callFn(st, reg, fn, args, nil)
		}
	}
	f := x.term(st, c.Value)
	if cl := x.closures[f]; cl != nil {
		return x.callFn(st, reg, cl.fn, args, cl.bind)
	}
	x.nonNil(st, f, "call of a nil function")
	return x.callback(st, reg, f, args, c.Signature())
}

// callback: a function value received from outside. It is assumed to be a deterministic function of its arguments that leaves the graph alone.
func (x *Exec) callback(st *State, reg ssa.Value, f *Term, args []Val, sig *types.Signature) []*State {
	if len(args) == 0 {
		if con := x.spec.contracts["Generator.call"]; con != nil && len(sigResults(sig)) == 1 && isIterType(sigResults(sig)[0]) {
			x.called[con.name] = true
			return x.callContract(st, reg, con, []types.Type{sig}, sigResults(sig), []Val{f})
		}
	}
	if len(args) == 1 && isAnyPredicate(sig) {
		if con := x.spec.contracts["Predicate.call"]; con != nil {
			x.called[con.name] = true
			return x.callContract(st, reg, con, []types.Type{sig, sig.Params().At(0).Type()}, sigResults(sig), []Val{f, args[0]})
		}
	}
	x.assumed["function values received as arguments are deterministic, terminate and do not modify the structures under verification"] = true
	var ts []*Term
	ts = append(ts, f)
	for _, a := range args {
		ts = append(ts, termOf(a))
	}
	if x.spec.callables {
		x.require(st, appPre(ts), "the arguments are allowed by the function value")
	}
	var res []Val
	for i, r := range sigResults(sig) {
		t := appTerm(ts, i, sortOf(r))
		x.known(st, t, r)
		res = append(res, t)
	}
	x.setResult(st, reg, res)
	st.top().pc++
	return []*State{st}
}

func (x *Exec) callFn(st *State, reg ssa.Value, fn *ssa.Function, args, bind []Val) []*State {
	name := contractName(fn)
	if con := x.spec.contracts[name]; con != nil && len(con.params) == len(args) && bind == nil && !con.inline {
		x.called[name] = true
		return x.callContract(st, reg, con, sigParams(fn), sigResults(fn.Signature), args)
	}
	inRepo := fn.Pkg == mainSSA || (fn.Pkg == nil && fn.Blocks != nil) || fn.Synthetic != "" && fn.Blocks != nil
	if fn.Blocks == nil || !inRepo {
		x.unsup("call of %s, which has no contract", name)
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 0 {
		x.unsup("recursive call of %s without a contract", name)
	}
	if len(st.frames) > 20 {
		x.unsup("inlining too deep at %s", name)
	}
	if fn != x.fn {
		x.inlined[name] = true
	}
	nf := x.newFrame(st, fn, args, bind)
	nf.ret = reg
	st.frames = append(st.frames, nf)
	return []*State{st}
}

func (x *Exec) invoke(st *State, reg ssa.Value, c *ssa.CallCommon, args []Val) []*State {
	recv := x.term(st, c.Value)
	return x.invokeOn(st, reg, c, recv, args)
}

func boxGoType(key string) types.Type { return boxTypesGo[key] }

var boxTypesGo = map[string]types.Type{}

func (x *Exec) invokeOn(st *State, reg ssa.Value, c *ssa.CallCommon, recv *Term, args []Val) []*State {
	if recv.op == "ite" {
		// split on the dynamic type
		n := st.clone()
		st.assume(recv.args[0])
		n.assume(Not(recv.args[0]))
		var out []*State
		out = append(out, x.invokeOn(st, reg, c, recv.args[1], args)...)
		return append(out, x.invokeOn(n, reg, c, recv.args[2], args)...)
	}
	x.nonNil(st, recv, "method call on a nil interface")
	if recv == INil {
		return nil
	}
	if strings.HasPrefix(recv.op, "box_") {
		t := boxGoType(recv.op[4:])
		ghosts := len(ghostFields[typeName(c.Value.Type())]) > 0 && !isIterType(c.Value.Type())
		if con := x.spec.contracts[typeName(c.Value.Type())+"."+c.Method.Name()]; ghosts && con != nil && con.iface {
			// seen through the interface, whose ghost state its contracts speak about
		} else if t != nil && x.spec.iterClassOf(t) == nil {
			fn := prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				return x.callFn(st, reg, fn, append([]Val{recv.args[0]}, args...), nil)
			}
		}
	}
	// interface-level contract
	it := c.Value.Type()
	names := []string{typeName(it) + "." + c.Method.Name()}
	for _, n := range []string{"Iterator", "NodeIterator", "EdgeIterator", "index", "WithNativeValue"} {
		names = append(names, n+"."+c.Method.Name())
	}
	for _, nm := range names {
		if con := x.spec.contracts[nm]; con != nil && con.iface {
			x.called[nm] = true
			sig := c.Signature()
			pts := []types.Type{it}
			for i := 0; i < sig.Params().Len(); i++ {
				pts = append(pts, sig.Params().At(i).Type())
			}
			return x.callContract(st, reg, con, pts, sigResults(sig), append([]Val{recv}, args...))
		}
	}
	x.unsup("method %s of interface %s has no contract", c.Method.Name(), typeName(it))
	return nil
}

func (x *Exec) bindParams(con *Contract, pts []types.Type, args []Val) map[string]TV {
	vars := map[string]TV{}
	for i, p := range con.params {
		if i >= len(args) {
			break
		}
		tv := TV{ty: goTy(pts[i])}
		switch a := args[i].(type) {
		case *Term:
			tv.t = a
		case *Addr:
			tv.addr = a
		}
		vars[p] = tv
	}
	return vars
}

type modSpec struct {
	whole bool
	refs  []*Term
	conds []func(q *Term) *Term
	fresh bool
}

func (x *Exec) compsOf(m *ModItem) []*Comp {
	if m.typ != nil {
		t := x.spec.resolveType(m.typ).gt
		if m.field == "cell" {
			return []*Comp{cellComp(t)}
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			a, b := mapComps(u)
			return []*Comp{a, b}
		case *types.Slice:
			return []*Comp{elemComp(u.Elem())}
		}
	}
	if m.tname == "Generator" || m.tname == "Predicate" {
		return []*Comp{ghostFuncComp(ghostFields[m.tname][m.field])}
	}
	if m.tname == "AnyMap" {
		return []*Comp{anyMapComp(m.field, m.tok)}
	}
	t := lookupType(m.tname)
	if t == nil {
		panic(evalErr{fmt.Sprintf("%s:%d: unknown type %s", m.tok.file, m.tok.line, m.tname)})
	}
	return fieldComps(t, m.field, m.tok)
}

// anyMapComp: ghost fields of maps (declared as AnyMap.$f) are shared by all map types.
func anyMapComp(field string, tok Tok) *Comp {
	g := ghostFields["AnyMap"][field]
	if g == nil {
		panic(evalErr{fmt.Sprintf("%s:%d: no ghost field AnyMap.%s", tok.file, tok.line, field)})
	}
	return ghostComp(g)
}

func fieldComps(t types.Type, field string, tok Tok) []*Comp {
	if field == "*" && types.IsInterface(t) {
		return ifaceComps(t)
	}
	if field == "*" {
		return typeComps(t)
	}
	if strings.HasPrefix(field, "$") {
		g := ghostFields[typeName(t)][field]
		if g == nil {
			panic(evalErr{fmt.Sprintf("%s:%d: no ghost field %s.%s", tok.file, tok.line, typeName(t), field)})
		}
		if types.IsInterface(t) {
			return []*Comp{ghostIfaceComp(g)}
		}
		return []*Comp{ghostComp(g)}
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return []*Comp{fieldComp(t, i)}
		}
	}
	panic(evalErr{fmt.Sprintf("%s:%d: no field %s.%s", tok.file, tok.line, typeName(t), field)})
}

func (x *Exec) modSpecs(con *Contract, env *Env) map[string]*modSpec {
	out := map[string]*modSpec{}
	get := func(c *Comp) *modSpec {
		m := out[c.name]
		if m == nil {
			m = &modSpec{}
			out[c.name] = m
		}
		return m
	}
	for _, it := range con.modifies {
		it := it
		for _, c := range x.compsOf(it) {
			m := get(c)
			switch {
			case it.fresh:
				m.fresh = true
			case it.at != nil:
				v := env.eval(it.at)
				t := v.lref
				if t == nil {
					if v.addr != nil {
						t = v.addr.ref
					} else {
						t = env.val(v)
					}
				}
				if t.sort == SSlice {
					t = SlArr(t)
				}
				m.refs = append(m.refs, objTerm(t, v.ty))
			case it.set != nil:
				ty := x.objType(it.bv.typ)
				m.conds = append(m.conds, func(q *Term) *Term {
					return env.with(it.bv.name, TV{t: q, ty: ty}).boolean(it.set)
				})
			default:
				m.whole = true
			}
		}
	}
	for _, te := range con.allocates {
		if te.kind == "name" && (te.name == "Generator" || te.name == "Predicate") {
			for _, g := range ghostFields[te.name] {
				get(ghostFuncComp(g)).fresh = true
			}
			continue
		}
		t := x.spec.resolveType(te).gt
		var cs []*Comp
		switch u := t.Underlying().(type) {
		case *types.Interface:
			cs = ifaceComps(t)
		case *types.Map:
			a, b := mapComps(u)
			cs = []*Comp{a, b}
			for _, n := range sortedKeys(ghostFields["AnyMap"]) {
				if g := ghostFields["AnyMap"][n]; g.of(u) {
					cs = append(cs, ghostComp(g))
				}
			}
		case *types.Slice:
			cs = []*Comp{elemComp(u.Elem())}
		default:
			cs = allComps(t)
		}
		for _, c := range cs {
			get(c).fresh = true
		}
	}
	return out
}

// objType is the type of a variable that stands for the objects of a type: a pointer for a struct.
func (x *Exec) objType(te *TExpr) *STy {
	ty := x.spec.resolveType(te)
	if ty.kind == "go" && (isStruct(ty.gt) || externType(ty.gt)) {
		return goTy(types.NewPointer(ty.gt))
	}
	return ty
}

func heapKeySort(c *Comp) Sort {
	if strings.HasPrefix(c.name, "I:") {
		return SIface
	}
	if strings.HasPrefix(c.name, "K:") {
		return SFunc
	}
	return SRef
}

func frameCond(m *modSpec, q *Term, before *Term) []*Term {
	var ne []*Term
	for _, r := range m.refs {
		ne = append(ne, Not(Eq(q, r)))
	}
	for _, c := range m.conds {
		ne = append(ne, Not(c(q)))
	}
	if m.fresh {
		ne = append(ne, Lt(keyID(q), before))
	}
	return ne
}

// objTerm is the heap key of an object: the object a copy was made from, the base of an iterator.
func objTerm(t *Term, ty *STy) *Term {
	if t.sort == SIface {
		return ibase(t)
	}
	if ty != nil && ty.kind == "go" && isStruct(ty.gt) && identityTypes[typeName(ty.gt)] && t.sort == sortOf(ty.gt) {
		return selIdx(t, 0)
	}
	return t
}

func (x *Exec) applySets(st *State, con *Contract, env *Env, exit bool) {
	for _, g := range con.ghosts {
		for _, c := range ghostSetComps(g) {
			h := x.heapGet(st, c)
			if g.bv == nil {
				rt := setRef(env, g)
				v := env.eval(g.val)
				vt := v.t
				if v.ty == tyUntyp {
					vt = nilFor(c.val)
				} else if vt == nil {
					vt = env.val(v)
					if v.lref != nil && c.val == SRef {
						vt = v.lref
					}
				}
				x.record(st, c, rt)
				if !exit && setOnce(con, g) && h.op != "store" && h != env.old(c) {
					// the memory was replaced for this call: its new value is described rather than overwritten,
					// which leaves patterns matching it directly
					st.assume(Eq(Select(h, rt), vt))
					continue
				}
				st.heap[c.name] = Store(h, rt, vt)
				continue
			}
			ty := x.objType(g.bv.typ)
			q := FreshVar(g.bv.name, ty.sort())
			e2 := env.with(g.bv.name, TV{t: q, ty: ty})
			cond := e2.boolean(g.cond)
			v := e2.eval(g.val)
			var vt *Term
			if v.ty == tyUntyp {
				vt = nilFor(c.val)
			} else if v.lref != nil && c.val == SRef {
				vt = v.lref
			} else {
				vt = e2.val(v)
			}
			x.recordWhole(st, c.name)
			n := x.freshHeap(st, c)
			sel := mk("select", c.val, "", n, q)
			st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(cond, vt, mk("select", c.val, "", h, q)))))
			st.heap[c.name] = n
		}
	}
}

// setKeeps: the update leaves the value as it was when the function was called.
func setKeeps(x *Exec, env *Env, g *GhostAssign, c *Comp, rt *Term) *Term {
	v := env.eval(g.val)
	vt := v.t
	if v.ty == tyUntyp {
		vt = nilFor(c.val)
	} else if vt == nil {
		vt = env.val(v)
		if v.lref != nil && c.val == SRef {
			vt = v.lref
		}
	}
	return Eq(Select(x.entryFn()(c), rt), vt)
}

func ms0(m *modSpec) *modSpec {
	if m == nil {
		return &modSpec{}
	}
	return m
}

func ghostSetComps(g *GhostAssign) []*Comp {
	if g.typ == "AnyMap" {
		return []*Comp{anyMapComp(g.field, g.tok)}
	}
	t := lookupType(g.typ)
	if t == nil {
		panic(evalErr{"unknown type " + g.typ})
	}
	return fieldComps(t, g.field, g.tok)
}

func setRef(env *Env, g *GhostAssign) *Term {
	r := env.eval(g.ref)
	rt := r.lref
	if rt == nil {
		rt = env.val(r)
	}
	if g.typ == "AnyMap" && (r.ty.gt == nil || !ghostFields["AnyMap"][g.field].of(r.ty.gt)) {
		panic(evalErr{fmt.Sprintf("%s:%d: this type of map has no ghost field %s", g.tok.file, g.tok.line, g.field)})
	}
	return objTerm(rt, r.ty)
}

// setOnce: no other ghost update of the contract sets the same field.
func setOnce(con *Contract, g *GhostAssign) bool {
	n := 0
	for _, o := range con.ghosts {
		if o.typ == g.typ && o.field == g.field {
			n++
		}
	}
	return n == 1
}

func (x *Exec) heapinvs(groups []string) []*HeapInv {
	want := map[string]bool{}
	var add func(g string)
	add = func(g string) {
		if want[g] {
			return
		}
		want[g] = true
		for _, s := range x.spec.groups[g] {
			add(s)
		}
	}
	for _, g := range groups {
		add(g)
	}
	var out []*HeapInv
	for _, h := range x.spec.heapinvs {
		if want[h.group] {
			out = append(out, h)
		}
	}
	return out
}

func (x *Exec) callContract(st *State, reg ssa.Value, con *Contract, pts, rts []types.Type, args []Val) []*State {
	preHeap := x.heapFn(st.clone())
	vars := x.bindParams(con, pts, args)
	before := counter(st)
	vars["$counter0"] = TV{t: before, ty: tyInt}
	env := &Env{x: x, vars: vars, heap: preHeap, old: preHeap, st: st}
	for _, l := range con.lets {
		vars[l.label] = env.eval(l.e)
	}
	for i, r := range con.requires {
		lb := r.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		g := env.boolean(r.e)
		x.oblige(st, "call of "+con.name+": requires "+lb, g, "")
		st.assume(g)
	}
	for i, a := range args {
		if i < len(pts) && isStruct(pts[i]) && identityTypes[typeName(pts[i])] {
			if t, ok := a.(*Term); ok {
				x.oblige(st, "call of "+con.name+": the argument is a copy of an object as it is", Eq(loadStruct(preHeap, selIdx(t, 0), pts[i]), t), "")
			}
		}
	}
	invs := x.heapinvs(con.maintains)
	for _, h := range invs {
		g := env.boolean(h.e)
		x.oblige(st, "call of "+con.name+": invariant "+h.group+"."+h.label, g, "")
		st.assume(g)
	}
	// panics
	if len(con.panics) > 0 {
		var cs []*Term
		for _, p := range con.panics {
			cs = append(cs, env.boolean(p.e))
		}
		cond := Or(cs...)
		if cond != False && !st.knows(Not(cond)) {
			if x.hasDefers(st) || len(x.entryPanics) > 0 {
				p := st.clone()
				p.assume(cond)
				x.pending = append(x.pending, p)
			} else {
				x.oblige(st, "no panic in "+con.name, Not(cond), "")
			}
			st.assume(Not(cond))
		}
	}
	if con.mayPanic {
		if x.hasDefers(st) {
			x.pending = append(x.pending, st.clone())
		} else {
			x.unsup("%s may panic", con.name)
		}
	}
	// effects
	ms := x.modSpecs(con, env)
	if !con.pure {
		nb := newBase()
		st.base, st.off = nb, 0
		st.assume(Le(before, nb))
		for _, l := range st.loops {
			if l.dry {
				l.rec.alloc = true
			}
		}
	}
	for _, cn := range sortedKeys(ms) {
		c := comps[cn]
		m := ms[cn]
		old := x.heapGet(st, c)
		if m.whole {
			x.recordWhole(st, cn)
			st.heap[cn] = x.freshHeap(st, c)
			continue
		}
		if !m.fresh && len(m.conds) == 0 {
			h := old
			for _, r := range m.refs {
				v := Fresh("v_"+cn, c.val)
				x.known(st, v, nil)
				x.record(st, c, r)
				h = Store(h, r, v)
			}
			st.heap[cn] = h
			continue
		}
		if len(m.conds) > 0 {
			x.recordWhole(st, cn)
		} else {
			for _, r := range m.refs {
				x.record(st, c, r)
			}
			if m.fresh {
				x.record(st, c, New(st.base, 0))
			}
		}
		h := x.freshHeap(st, c)
		q := FreshVar("r", heapKeySort(c))
		sel := mk("select", c.val, "", h, q)
		st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Implies(And(frameCond(m, q, before)...), Eq(sel, mk("select", c.val, "", old, q)))))
		if m.fresh && len(m.conds) == 0 && len(m.refs) == 0 {
			frameOf[h] = frameInfo{old, before}
		}
		st.heap[cn] = h
	}
	// results
	var res []Val
	post := &Env{x: x, vars: map[string]TV{}, heap: x.heapFn(st), old: preHeap, st: st}
	for k, v := range vars {
		post.vars[k] = v
	}
	for i, rt := range rts {
		nm := "result"
		if i < len(con.results) {
			nm = con.results[i]
		}
		t := Fresh(nm, sortOf(rt))
		x.known(st, t, rt)
		res = append(res, t)
		post.vars[nm] = TV{t: t, ty: goTy(rt)}
		if i == 0 {
			post.vars["result"] = post.vars[nm]
		}
	}
	x.applySets(st, con, post, false)
	// name what iterator results have to do, so that the solvers look at it
	for _, k := range sortedKeys(post.vars) {
		if v := post.vars[k]; v.t != nil && v.t.sort == SIface && v.t.op == "const" && v.ty.gt != nil && isIterType(v.ty.gt) {
			for _, g := range ghostFields["Iterator"] {
				if g.name == "$todo" {
					st.assume(App("mention", SBool, Select(x.heapFn(st)(ghostIfaceComp(g)), ibase(v.t))))
				}
			}
		}
	}
	for _, e := range con.ensures {
		st.assume(post.boolean(e.e))
	}
	for _, h := range invs {
		st.assume(post.boolean(h.e))
	}
	x.ncalls++
	// a result defined by an equation is replaced by its definition
	x.setResult(st, reg, x.defined(st, res))
	st.top().pc++
	if st.infeasible() {
		return nil
	}
	return []*State{st}
}

type frameInfo struct {
	old    *Term
	before *Term
}

var frameOf = map[*Term]frameInfo{}

// defined replaces results that an ensures clause equates with a term by that term.
func (x *Exec) defined(st *State, res []Val) []Val {
	for i, r := range res {
		t, ok := r.(*Term)
		if !ok {
			continue
		}
		n := 0
		for p := st.pc; p != nil && n < 60; p = p.prev {
			n++
			if p.t.op == "=" && p.t.args[0] == t && !contains(p.t.args[1], t) {
				res[i] = p.t.args[1]
				break
			}
			if p.t.op == "=" && p.t.args[1] == t && !contains(p.t.args[0], t) {
				res[i] = p.t.args[0]
				break
			}
			if p.t == t {
				res[i] = True
				break
			}
		}
	}
	return res
}

func contains(t, s *Term) bool {
	found := false
	subterms([]*Term{t}, func(u *Term) {
		if u == s {
			found = true
		}
	})
	return found
}

// ---- builtins ----

func (x *Exec) builtin(st *State, reg ssa.Value, b *ssa.Builtin, c *ssa.CallCommon) []*State {
	done := func(v Val) []*State {
		if reg != nil {
			st.setReg(reg, v)
		}
		st.top().pc++
		return []*State{st}
	}
	switch b.Name() {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(st, c.Args[0])
			if b.Name() == "cap" {
				return done(SlCap(s))
			}
			return done(SlLen(s))
		case *types.Map:
			dc, _ := mapComps(u)
			m := x.term(st, c.Args[0])
			x.nilMapFact(st, dc, m)
			if m == Nil {
				return done(IntT(0))
			}
			return done(card(hsel(x.heapGet(st, dc), m)))
		case *types.Basic:
			t := App("strlen", SInt, x.term(st, c.Args[0]))
			st.assume(Le(IntT(0), t))
			return done(t)
		}
	case "append":
		return x.appendBuiltin(st, reg, c)
	case "copy":
		d, s := x.term(st, c.Args[0]), x.term(st, c.Args[1])
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		ec := elemComp(et)
		if s.sort == SStr {
			x.unsup("copy from a string")
		}
		n := Ite(Lt(SlLen(d), SlLen(s)), SlLen(d), SlLen(s))
		if SlLen(d) == SlLen(s) {
			n = SlLen(d)
		}
		h := x.heapGet(st, ec)
		dst, src := hsel(h, SlArr(d)), hsel(h, SlArr(s))
		nc := Fresh("copied", ec.val)
		q := FreshVar("i", SInt)
		_, es := arrParts(ec.val)
		sel := mk("select", es, "", nc, q)
		in := And(Le(SlOff(d), q), Lt(q, Add(SlOff(d), n)))
		st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(in, At(src, SlOff(s), Sub(q, SlOff(d))), mk("select", es, "", dst, q)))))
		x.heapSet(st, ec, SlArr(d), nc)
		return done(n)
	case "delete":
		m, k := x.term(st, c.Args[0]), x.term(st, c.Args[1])
		x.needHashable(st, k)
		dc, _ := mapComps(c.Args[0].Type().Underlying().(*types.Map))
		x.nilMapFact(st, dc, m)
		if m != Nil {
			x.heapSet(st, dc, m, Store(hsel(x.heapGet(st, dc), m), k, False))
		}
		return done(nil)
	case "recover":
		if st.panicking {
			st.recovered = true
			t := Fresh("recovered", SIface)
			st.assume(Not(Eq(t, INil)))
			return done(t)
		}
		return done(INil)
	case "panic":
		return x.raise(st)
	case "print", "println":
		return done(nil)
	case "ssa:deferstack":
		return done(True)
	case "ssa:wrapnilchk":
		v := x.get(st, c.Args[0])
		if t, ok := v.(*Term); ok {
			x.nonNil(st, t, "nil receiver")
		}
		return done(v)
	case "min", "max":
		v := x.term(st, c.Args[0])
		for _, a := range c.Args[1:] {
			w := x.term(st, a)
			if b.Name() == "min" {
				v = Ite(Lt(w, v), w, v)
			} else {
				v = Ite(Lt(v, w), w, v)
			}
		}
		return done(v)
	}
	x.unsup("builtin %s", b.Name())
	return nil
}

func litLen(s *Term) (int64, bool) {
	l := SlLen(s)
	if l.op == "int" {
		var n int64
		fmt.Sscan(l.name, &n)
		return n, true
	}
	return 0, false
}

func (x *Exec) appendBuiltin(st *State, reg ssa.Value, c *ssa.CallCommon) []*State {
	s := x.term(st, c.Args[0])
	if len(c.Args) == 1 {
		st.setReg(reg, s)
		st.top().pc++
		return []*State{st}
	}
	t := x.term(st, c.Args[1])
	if t.sort == SStr {
		x.unsup("append of a string")
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	ec := elemComp(et)
	_, es := arrParts(ec.val)
	h := x.heapGet(st, ec)
	src := hsel(h, SlArr(t))
	newLen := Add(SlLen(s), SlLen(t))
	k, lit := litLen(t)
	// contents after the append, for a destination array with content d and offset off
	fill := func(st *State, d, off *Term) *Term {
		if lit && k <= 6 {
			for j := int64(0); j < k; j++ {
				v := At(src, SlOff(t), IntT(j))
				d = Store(d, Add(Add(off, SlLen(s)), IntT(j)), v)
				x.seed(st, d, off, Add(Add(off, SlLen(s)), IntT(j)), Add(SlLen(s), IntT(j)), v)
			}
			return d
		}
		nc := Fresh("appended", ec.val)
		q := FreshVar("i", SInt)
		sel := mk("select", es, "", nc, q)
		lo := Add(off, SlLen(s))
		in := And(Le(lo, q), Lt(q, Add(lo, SlLen(t))))
		st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(in, At(src, SlOff(t), Sub(q, lo)), mk("select", es, "", d, q)))))
		return nc
	}
	var out []*State
	// grows into a new array
	grow := st.clone()
	fits := Le(newLen, SlCap(s))
	grow.assume(Not(fits))
	if fits != True && !grow.infeasible() && !st.knows(fits) {
		r := x.allocObj(grow, nil)
		base := hsel(h, SlArr(s))
		if SlOff(s) != IntT(0) {
			nc := Fresh("moved", ec.val)
			q := FreshVar("i", SInt)
			sel := mk("select", es, "", nc, q)
			grow.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, At(base, SlOff(s), q))))
			base = nc
		}
		d := fill(grow, base, IntT(0))
		x.countFact(grow, lit && k == 1, hsel(h, SlArr(s)), SlOff(s), SlLen(s), d, IntT(0), src, t)
		x.heapSet(grow, ec, r, d)
		nc := Fresh("cap", SInt)
		grow.assume(Le(newLen, nc))
		grow.setReg(reg, MkSlice(r, IntT(0), newLen, nc))
		grow.top().pc++
		out = append(out, grow)
	}
	if fits != False && !st.knows(Not(fits)) {
		st.assume(fits)
		if !st.infeasible() {
			d := fill(st, hsel(h, SlArr(s)), SlOff(s))
			x.countFact(st, lit && k == 1, hsel(h, SlArr(s)), SlOff(s), SlLen(s), d, SlOff(s), src, t)
			if !(lit && k == 0) {
				x.heapSet(st, ec, SlArr(s), d)
			}
			st.setReg(reg, MkSlice(SlArr(s), SlOff(s), newLen, SlCap(s)))
			st.top().pc++
			out = append(out, st)
		}
	}
	return out
}

// ---- exits ----

func (x *Exec) exitEnv(st *State, res []Val) *Env {
	vars := map[string]TV{}
	for k, v := range x.entryVars {
		vars[k] = v
	}
	rts := sigResults(x.fn.Signature)
	for i, r := range res {
		nm := "result"
		if i < len(x.con.results) {
			nm = x.con.results[i]
		}
		tv := TV{ty: goTy(rts[i])}
		switch a := r.(type) {
		case *Term:
			tv.t = a
		case *Addr:
			tv.addr = a
		}
		vars[nm] = tv
		if i == 0 {
			vars["result"] = tv
		}
	}
	env := &Env{x: x, vars: vars, heap: x.heapFn(st), old: x.entryFn(), st: st}
	if len(x.fn.FreeVars) > 0 {
		env.lookup = x.fvLookup(x.heapFn(st), x.entryFn(), x.fn, x.fvBind)
	}
	return env
}

func (x *Exec) finish(st *State, res []Val) {
	if x.finishFn != nil {
		x.finishFn(st, res)
		return
	}
	if st.infeasible() {
		return
	}
	x.nret++
	x.pathN++
	env := x.exitEnv(st, res)
	// keep the final frame for positions
	x.applySets(st, x.con, env, true)
	for _, h := range x.con.hints {
		g, err := env.tryEval(h.e)
		if err != nil {
			continue
		}
		x.oblige(st, "hint "+h.label, g, "")
		st.assume(g)
	}
	x.retCover = append(x.retCover, &Obl{fn: x.name, label: "reachable", assume: st.assumptions(), goal: False, vacuity: true})
	for i, p := range x.con.panics {
		lb := p.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		x.oblige(st, "panics when "+lb+": returns only otherwise", Not(x.entryPanics[i]), "")
	}
	for i, e := range x.con.ensures {
		lb := e.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		x.oblige(st, "ensures "+lb, env.boolean(e.e), "")
	}
	for _, h := range x.heapinvs(x.con.maintains) {
		x.oblige(st, "invariant "+h.group+"."+h.label, env.boolean(h.e), "")
	}
	x.frameCheck(st, env, true)
}

func (x *Exec) frameCheck(st *State, env *Env, mods bool) {
	var ms map[string]*modSpec
	entryEnv := &Env{x: x, vars: x.entryVars, heap: x.entryFn(), old: x.entryFn(), st: x.entrySt, inOld: true}
	if len(x.fn.FreeVars) > 0 {
		entryEnv.lookup = x.fvLookup(x.entryFn(), x.entryFn(), x.fn, x.fvBind)
	}
	if mods {
		ms = x.modSpecs(x.con, entryEnv)
	} else {
		ms = map[string]*modSpec{}
	}
	if mods {
		// ghost updates of the contract are applied by its callers, too
		for _, g := range x.con.ghosts {
			for _, c := range ghostSetComps(g) {
				m := &modSpec{}
				if old := ms[c.name]; old != nil {
					*m = *old
				}
				m.refs = append([]*Term(nil), m.refs...)
				if g.bv == nil {
					rt := setRef(env, g)
					if !m.whole {
						x.oblige(st, "ghost update within what is declared: "+c.name, Or(Not(And(frameCond(ms0(ms[c.name]), rt, x.alloc0)...)), BoolT(ms[c.name] == nil), setKeeps(x, env, g, c, rt)), "")
					}
					m.refs = append(m.refs, rt)
				} else {
					g := g
					ty := x.objType(g.bv.typ)
					m.conds = append(append([]func(q *Term) *Term(nil), m.conds...), func(q *Term) *Term {
						return env.with(g.bv.name, TV{t: q, ty: ty}).boolean(g.cond)
					})
				}
				ms[c.name] = m
			}
		}
	}
	for _, cn := range sortedKeys(st.heap) {
		e := x.entry[cn]
		h := st.heap[cn]
		if e == nil || h == e || strings.HasPrefix(cn, "C:") && !(x.con.pure && len(x.fn.FreeVars) > 0) {
			continue
		}
		m := ms[cn]
		if m == nil {
			m = &modSpec{}
		}
		if m.whole {
			continue
		}
		c := comps[cn]
		if !mods || strings.HasPrefix(cn, "C:") {
			m = &modSpec{fresh: true}
		}
		q := Fresh("loc", heapKeySort(c))
		conds := frameCond(m, q, x.alloc0)
		goal := Implies(And(conds...), Eq(Select(h, q), Select(e, q)))
		x.oblige(st, "modifies only what is declared: "+cn, goal, "")
	}
}

func (x *Exec) finishPanic(st *State) {
	if st.infeasible() {
		return
	}
	if x.con.mayPanic {
		return
	}
	if len(x.con.panics) == 0 {
		x.oblige(st, "no panic: explicit panic is unreachable", False, "")
		return
	}
	x.oblige(st, "panics only when declared", Or(x.entryPanics...), "")
	x.frameCheck(st, nil, false)
}

// ---- loop invariants ----

func (x *Exec) frameEnv(st *State) *Env {
	env := &Env{x: x, vars: map[string]TV{}, heap: x.heapFn(st), old: x.entryFn(), st: st}
	for k, v := range x.entryVars {
		if strings.HasPrefix(k, "$") {
			env.vars[k] = v
		}
	}
	for _, l := range x.con.lets {
		if v, ok := x.entryVars[l.label]; ok {
			env.vars[l.label] = v
		}
	}
	env.lookup = func(name string, old bool) (TV, bool) {
		if old {
			if v, ok := x.entryVars[name]; ok {
				return v, ok
			}
			// captured variables at the call of the closure
			f := st.frames[0]
			for _, fv := range f.fn.FreeVars {
				if fv.Name() != name {
					continue
				}
				elem := fv.Type().Underlying().(*types.Pointer).Elem()
				if r, ok := f.regs[fv].(*Term); ok {
					if isStruct(elem) {
						return TV{lref: r, ty: goTy(elem)}, true
					}
					if !isArray(elem) {
						return TV{t: hsel(x.entryFn()(cellComp(elem)), r), ty: goTy(elem)}, true
					}
				}
			}
			return TV{}, false
		}
		// ghost names of the loop
		if strings.HasPrefix(name, "$") {
			return x.loopName(st, name)
		}
		for i := len(st.frames) - 1; i >= 0; i-- {
			f := st.frames[i]
			nm := name
			if i == 0 {
				// contract parameter names
				for k, p := range x.con.params {
					if p == name && k < len(f.fn.Params) {
						nm = f.fn.Params[k].Name()
						if _, ok := f.names[nm]; !ok {
							return x.entryVars[name], true
						}
					}
				}
			}
			if v, ok := x.varOf(st, f, nm); ok {
				return v, true
			}
		}
		v, ok := x.entryVars[name]
		return v, ok
	}
	return env
}

func (x *Exec) varOf(st *State, f *Frame, name string) (TV, bool) {
	if a, ok := f.names[name]; ok {
		return x.cellTV(st, f, a)
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			return x.ptrTV(st, f.regs[fv], fv.Type())
		}
	}
	return TV{}, false
}

func (x *Exec) cellTV(st *State, f *Frame, a ssa.Value) (TV, bool) {
	return x.ptrTV(st, f.regs[a], a.Type())
}

func (x *Exec) ptrTV(st *State, p Val, pt types.Type) (TV, bool) {
	elem := pt.Underlying().(*types.Pointer).Elem()
	switch r := p.(type) {
	case *Addr:
		if r.kind == "cell" {
			if _, ok := st.cells[r.cell]; !ok {
				return TV{}, false
			}
		}
		v := x.loadAddr(st, r, x.heapFn(st))
		switch w := v.(type) {
		case *Term:
			return TV{t: w, ty: goTy(elem)}, true
		case *Addr:
			return TV{addr: w, ty: goTy(elem)}, true
		}
		return TV{}, false
	case *Term:
		if isStruct(elem) {
			return TV{lref: r, ty: goTy(elem)}, true
		}
		if isArray(elem) {
			return TV{}, false
		}
		return TV{t: hsel(x.heapGet(st, cellComp(elem)), r), ty: goTy(elem)}, true
	}
	return TV{}, false
}

func (x *Exec) loopName(st *State, name string) (TV, bool) {
	depth := 0
	switch {
	case strings.HasSuffix(name, "1"):
		depth = 1
		name = name[:len(name)-1]
	case strings.HasSuffix(name, "2"):
		depth = 2
		name = name[:len(name)-1]
	}
	if name == "$preloop" {
		return TV{}, false
	}
	n := 0
	for i := len(st.loops) - 1; i >= 0; i-- {
		l := st.loops[i]
		if n < depth {
			n++
			continue
		}
		switch name {
		case "$visited":
			if l.range_ == nil {
				return TV{}, false
			}
			t, ok := st.cells[cellKey{l.frame, l.range_}].(*Term)
			if !ok {
				return TV{}, false
			}
			mt := l.range_.X.Type().Underlying().(*types.Map)
			return TV{t: t, ty: &STy{kind: "set", k: goTy(mt.Key()), v: tyBool}}, true
		case "$dom":
			if l.range_ == nil {
				return TV{}, false
			}
			t, ok := st.cells[cellKey{-l.frame - 1, l.range_}].(*Term)
			if !ok {
				return TV{}, false
			}
			mt := l.range_.X.Type().Underlying().(*types.Map)
			return TV{t: t, ty: &STy{kind: "set", k: goTy(mt.Key()), v: tyBool}}, true
		case "$slice":
			// the slice a range loop goes through
			for _, ins := range l.header.Instrs {
				if b, ok := ins.(*ssa.BinOp); ok && b.Op == token.LSS {
					if c, ok := b.Y.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							for _, f := range st.frames {
								if f.id == l.frame {
									if t, ok := f.regs[c.Call.Args[0]].(*Term); ok {
										return TV{t: t, ty: goTy(c.Call.Args[0].Type())}, true
									}
								}
							}
						}
					}
				}
			}
			return TV{}, false
		case "$i":
			for _, ins := range l.header.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
						t, ok := st.cells[cellKey{l.frame, a}].(*Term)
						if ok {
							return TV{t: Add(t, IntT(1)), ty: tyInt}, true
						}
					}
				}
			}
			return TV{}, false
		}
		return TV{}, false
	}
	return TV{}, false
}

func (x *Exec) buildInvs(st, pre *State, ctx *LoopCtx, ws *WriteSet) {
	key := x.loopKey(st.top(), ctx.header) + fmt.Sprintf("@%d", len(st.frames))
	f := st.top()
	add := func(id, label string, eval func(s *State) (*Term, error)) {
		ctx.invs = append(ctx.invs, loopInv{id: key + "/" + id, label: label, eval: eval})
	}
	// declared invariants
	for i, c := range x.con.invs {
		if c.off {
			continue
		}
		c := c
		lb := c.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		if len(c.vars) == 0 {
			add(fmt.Sprintf("inv%d", i), lb, func(s *State) (*Term, error) { return x.frameEnv(s).tryEval(c.e) })
			continue
		}
		// instantiate over variables of matching type
		var combos [][]string
		combos = append(combos, nil)
		for _, v := range c.vars {
			var next [][]string
			ty := x.spec.resolveType(v.typ)
			for _, cb := range combos {
				for _, n := range x.candVars(st, ty) {
					dup := false
					for _, m := range cb {
						if m == n {
							dup = true
						}
					}
					if !dup {
						next = append(next, append(append([]string(nil), cb...), n))
					}
				}
			}
			combos = next
		}
		if len(combos) > 40 {
			combos = combos[:40]
		}
		for _, cb := range combos {
			cb := cb
			add(fmt.Sprintf("inv%d(%s)", i, strings.Join(cb, ",")), lb+"("+strings.Join(cb, ",")+")", func(s *State) (*Term, error) {
				env := x.frameEnv(s)
				for k, v := range c.vars {
					tv, ok := x.candVal(s, cb[k])
					if !ok {
						return nil, fmt.Errorf("gone")
					}
					env = env.with(v.name, tv)
				}
				return env.tryEval(c.e)
			})
		}
	}
	if ctx.range_ != nil {
		add("visited", "visited keys belong to the map", func(s *State) (*Term, error) {
			v, ok := s.cells[cellKey{f.id, ctx.range_}].(*Term)
			d, ok2 := s.cells[cellKey{-f.id - 1, ctx.range_}].(*Term)
			if !ok || !ok2 {
				return nil, fmt.Errorf("gone")
			}
			k, _ := arrParts(v.sort)
			q := BVar("vk?", k)
			sel := mk("select", SBool, "", v, q)
			var pats [][]*Term
			if !hasITE(sel) {
				pats = [][]*Term{{sel}}
			}
			return Forall([]*Term{q}, pats, Implies(Select(v, q), Select(d, q))), nil
		})
	}
	// maintained heap invariants
	for _, h := range x.heapinvs(x.con.maintains) {
		h := h
		add("heap:"+h.group+"."+h.label, h.group+"."+h.label, func(s *State) (*Term, error) {
			return (&Env{x: x, vars: map[string]TV{}, heap: x.heapFn(s), old: x.entryFn(), st: s}).tryEval(h.e)
		})
	}
	// frames: memory that existed at function entry is unchanged since loop entry
	entryEnv := &Env{x: x, vars: x.entryVars, heap: x.entryFn(), old: x.entryFn(), st: x.entrySt, inOld: true}
	if len(x.fn.FreeVars) > 0 {
		entryEnv.lookup = x.fvLookup(x.entryFn(), x.entryFn(), x.fn, x.fvBind)
	}
	declared := x.modSpecs(x.con, entryEnv)
	for _, cn := range sortedKeys(ctx.havocd) {
		cn := cn
		if !ws.whole[cn] {
			continue
		}
		c := comps[cn]
		if m := declared[cn]; m != nil {
			if m.whole {
				continue
			}
			if e := x.entry[cn]; e != nil && len(m.refs)+len(m.conds) > 0 {
				add("declared:"+cn, "only declared memory changed: "+cn, func(s *State) (*Term, error) {
					h := x.heapGet(s, c)
					if h == e {
						return True, nil
					}
					q := BVar("de?"+sanitize(cn), heapKeySort(c))
					sel := mk("select", c.val, "", h, q)
					var pats [][]*Term
					if !hasITE(sel) {
						pats = [][]*Term{{sel}}
					}
					return Forall([]*Term{q}, pats, Implies(And(frameCond(m, q, x.alloc0)...), Eq(sel, mk("select", c.val, "", e, q)))), nil
				})
			}
		}
		before := pre.heap[cn]
		if before == nil {
			before = x.heapGet(pre, c)
		}
		add("frame:"+cn, "older memory unchanged: "+cn, func(s *State) (*Term, error) {
			q := BVar("fr?"+sanitize(cn), heapKeySort(c))
			h := x.heapGet(s, c)
			if h == before {
				return True, nil
			}
			sel := mk("select", c.val, "", h, q)
			var pats [][]*Term
			if !hasITE(sel) {
				pats = [][]*Term{{sel}}
			}
			return Forall([]*Term{q}, pats, Implies(Lt(keyID(q), x.alloc0), Eq(mk("select", c.val, "", h, q), mk("select", c.val, "", before, q)))), nil
		})
	}
	// slices and integers
	var ks []cellKey
	for k := range ws.cells {
		if _, ok := st.cells[k]; ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].frame != ks[j].frame {
			return ks[i].frame < ks[j].frame
		}
		return ks[i].v.Name() < ks[j].v.Name()
	})
	for _, k := range ks {
		k := k
		v0, ok := pre.cells[k].(*Term)
		if !ok {
			continue
		}
		nm := cellName(k)
		id := x.cellID(st, k)
		switch v0.sort {
		case SSlice:
			add("fresh:"+id, nm+" is a new slice", func(s *State) (*Term, error) {
				t, ok := s.cells[k].(*Term)
				if !ok {
					return nil, fmt.Errorf("gone")
				}
				return Or(Eq(SlCap(t), IntT(0)), Le(x.alloc0, Rid(SlArr(t)))), nil
			})
			add("off0:"+id, nm+" has offset 0", func(s *State) (*Term, error) {
				t, ok := s.cells[k].(*Term)
				if !ok {
					return nil, fmt.Errorf("gone")
				}
				return Eq(SlOff(t), IntT(0)), nil
			})
		case SInt:
			add("mono:"+id, nm+" does not fall below its first value", func(s *State) (*Term, error) {
				t, ok := s.cells[k].(*Term)
				if !ok {
					return nil, fmt.Errorf("gone")
				}
				return Le(v0, t), nil
			})
			for bi, y := range x.bounds(ctx, k) {
				y := y
				add(fmt.Sprintf("bound%d:%s", bi, id), nm+" stays within its bound", func(s *State) (*Term, error) {
					t, ok := s.cells[k].(*Term)
					if !ok {
						return nil, fmt.Errorf("gone")
					}
					b, err := x.pureSSA(s, f.id, y.v)
					if err != nil {
						return nil, err
					}
					if y.strict {
						return Lt(t, b), nil
					}
					return Le(t, b), nil
				})
			}
		}
	}
}

type boundV struct {
	v      ssa.Value
	strict bool
}

// bounds finds values an integer variable is compared with in the loop.
func (x *Exec) bounds(ctx *LoopCtx, k cellKey) []boundV {
	var out []boundV
	isCell := func(v ssa.Value) (bool, bool) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == k.v {
			return true, false
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if u, ok := b.X.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == k.v {
				return true, true
			}
		}
		return false, false
	}
	var blocks []*ssa.BasicBlock
	for b := range ctx.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, ins := range b.Instrs {
			if o, ok := ins.(*ssa.BinOp); ok && (o.Op == token.LSS || o.Op == token.NEQ || o.Op == token.LEQ) {
				if is, plus := isCell(o.X); is {
					out = append(out, boundV{o.Y, plus})
				}
			}
			if o, ok := ins.(*ssa.BinOp); ok && (o.Op == token.GTR || o.Op == token.GEQ || o.Op == token.EQL) {
				if is, _ := isCell(o.Y); is && o.Op == token.GTR {
					out = append(out, boundV{o.X, false})
				}
				if is, plus := isCell(o.X); is {
					out = append(out, boundV{o.Y, plus})
				}
			}
		}
	}
	return out
}

// pureSSA evaluates a side-effect free SSA expression in a state.
func (x *Exec) pureSSA(st *State, frame int, v ssa.Value) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				err = fmt.Errorf("not pure")
				return
			}
			panic(r)
		}
	}()
	var f *Frame
	for _, g := range st.frames {
		if g.id == frame {
			f = g
		}
	}
	var ev func(v ssa.Value) *Term
	ev = func(v ssa.Value) *Term {
		switch u := v.(type) {
		case *ssa.Const:
			return x.constVal(u)
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok {
					tv, ok := x.cellTV(st, f, a)
					if !ok || tv.t == nil {
						panic(unsupported{"no"})
					}
					return tv.t
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if a, ok := fa.X.(*ssa.Alloc); ok {
						pt := a.Type().Underlying().(*types.Pointer).Elem()
						tv, ok := x.cellTV(st, f, a)
						if ok && tv.t != nil {
							return selIdx(tv.t, dtFieldIdx(pt, fa.Field))
						}
					}
					b := ev(fa.X)
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if isStruct(structOf(pt).Field(fa.Field).Type()) {
						panic(unsupported{"no"})
					}
					return hsel(x.heapGet(st, fieldComp(pt, fa.Field)), b)
				}
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if sl, ok := u.Call.Args[0].Type().Underlying().(*types.Slice); ok {
					_ = sl
					return SlLen(ev(u.Call.Args[0]))
				}
			}
		case *ssa.BinOp:
			if u.Op == token.ADD && sortOf(u.Type()) == SInt {
				return Add(ev(u.X), ev(u.Y))
			}
			if u.Op == token.SUB && sortOf(u.Type()) == SInt {
				return Sub(ev(u.X), ev(u.Y))
			}
		}
		if r, ok := f.regs[v].(*Term); ok {
			return r
		}
		panic(unsupported{"no"})
	}
	return ev(v), nil
}

// candVars names the variables of the current frames with a given type.
func (x *Exec) candVars(st *State, ty *STy) []string {
	var out []string
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		for _, n := range sortedKeys(f.names) {
			a := f.names[n]
			elem := a.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(elem, ty.gt) || types.Identical(elem.Underlying(), ty.gt.Underlying()) && ty.gt == ty.gt.Underlying() {
				if _, ok := x.cellTV(st, f, a); ok {
					out = append(out, fmt.Sprintf("%d:%s", f.id, n))
				}
			}
		}
	}
	return out
}

func (x *Exec) candVal(st *State, name string) (TV, bool) {
	var id int
	i := strings.Index(name, ":")
	fmt.Sscan(name[:i], &id)
	for _, f := range st.frames {
		if f.id == id {
			a, ok := f.names[name[i+1:]]
			if !ok {
				return TV{}, false
			}
			tv, ok := x.cellTV(st, f, a)
			if ok && name[i+1:] == "rangeindex" {
				tv.t = Add(tv.t, IntT(1))
			}
			return tv, ok
		}
	}
	return TV{}, false
}
