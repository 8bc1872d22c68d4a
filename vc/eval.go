package main

// Evaluation of specification expressions to terms.

import (
	"fmt"
	"go/types"
	"strings"
)

// TV is a typed specification value: a term, or a location (lref, for structs inside the heap).
type TV struct {
	t    *Term
	lref *Term // address, when the value is a struct stored in the heap
	addr *Addr // executor address (for pointers to cells)
	ty   *STy
}

type Env struct {
	x      *Exec
	vars   map[string]TV
	heap   func(c *Comp) *Term
	old    func(c *Comp) *Term
	lookup func(name string, old bool) (TV, bool)
	inOld  bool
	st     *State // for cells
}

type evalErr struct{ msg string }

func (e *Env) fail(t Tok, f string, a ...any) {
	panic(evalErr{fmt.Sprintf("%s:%d: ", t.file, t.line) + fmt.Sprintf(f, a...)})
}

func (e *Env) with(n string, v TV) *Env {
	c := *e
	c.vars = map[string]TV{}
	for k, x := range e.vars {
		c.vars[k] = x
	}
	c.vars[n] = v
	return &c
}

// tryEval evaluates and reports whether all names resolved.
func (e *Env) tryEval(x *Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	return e.boolean(x), nil
}

func (e *Env) boolean(x *Expr) *Term {
	v := e.eval(x)
	t := e.val(v)
	if t.sort != SBool {
		e.fail(x.tok, "boolean expected, got %s", t.sort)
	}
	return t
}

// val gives the term of a value (loading a struct from the heap if needed).
func (e *Env) val(v TV) *Term {
	if v.t != nil {
		return v.t
	}
	if v.lref != nil {
		return loadStruct(e.heap, v.lref, v.ty.gt)
	}
	panic(evalErr{"no value"})
}

func loadStruct(heap func(*Comp) *Term, ref *Term, t types.Type) *Term {
	if externType(t) {
		return hsel(heap(comp("X:"+typeName(t), sortOf(t))), ref)
	}
	s := sortOf(t)
	st := structOf(t)
	var as []*Term
	if identityTypes[typeName(t)] {
		as = append(as, ref)
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isStruct(ft) {
			as = append(as, loadStruct(heap, SubAddr(typeName(t)+"_"+st.Field(i).Name(), ref), ft))
		} else {
			as = append(as, hsel(heap(fieldComp(t, i)), ref))
		}
	}
	return mkDT(s, as...)
}

func (s *Spec) resolveType(t *TExpr) *STy {
	switch t.kind {
	case "ptr":
		a := s.resolveType(t.a)
		return goTy(types.NewPointer(a.gt))
	case "slice":
		a := s.resolveType(t.a)
		return goTy(types.NewSlice(a.gt))
	case "map":
		return goTy(types.NewMap(s.resolveType(t.a).gt, s.resolveType(t.b).gt))
	case "set":
		return &STy{kind: "set", k: s.resolveType(t.a), v: tyBool}
	case "gmap":
		return &STy{kind: "map", k: s.resolveType(t.a), v: s.resolveType(t.b)}
	}
	switch t.name {
	case "int":
		return tyInt
	case "bool":
		return tyBool
	case "string":
		return tyStr
	case "any":
		return tyAny
	case "ref":
		return tyRef
	case "real":
		return tyReal
	case "func()":
		return tyFunc
	case "struct{}":
		return goTy(types.NewStruct(nil, nil))
	case "error":
		return goTy(types.Universe.Lookup("error").Type())
	}
	o := lookupType(t.name)
	if o == nil {
		panic(evalErr{"unknown type " + t.name})
	}
	return goTy(o)
}

func lookupType(n string) types.Type {
	if i := strings.LastIndex(n, "."); i >= 0 {
		pn, tn := n[:i], n[i+1:]
		for _, p := range prog.AllPackages() {
			if p.Pkg.Name() == pn {
				if o := p.Pkg.Scope().Lookup(tn); o != nil {
					if _, ok := o.(*types.TypeName); ok && depPkg(p.Pkg) {
						return o.Type()
					}
				}
			}
		}
		return nil
	}
	if o := mainPkg.Scope().Lookup(n); o != nil {
		return o.Type()
	}
	return nil
}

func depPkg(p *types.Package) bool {
	for _, i := range mainPkg.Imports() {
		if i == p {
			return true
		}
	}
	return false
}

func (e *Env) eval(x *Expr) TV {
	switch x.op {
	case "int":
		var n int64
		fmt.Sscan(x.name, &n)
		return TV{t: IntT(n), ty: tyInt}
	case "str":
		return TV{t: StrLit(x.name), ty: tyStr}
	case "id":
		switch x.name {
		case "true":
			return TV{t: True, ty: tyBool}
		case "false":
			return TV{t: False, ty: tyBool}
		case "nil":
			return TV{ty: tyUntyp}
		}
		if v, ok := e.vars[x.name]; ok {
			return v
		}
		if e.lookup != nil {
			if v, ok := e.lookup(x.name, e.inOld); ok {
				return v
			}
		}
		// package constants
		if o := mainPkg.Scope().Lookup(x.name); o != nil {
			if c, ok := o.(*types.Const); ok {
				var n int64
				fmt.Sscan(c.Val().ExactString(), &n)
				return TV{t: IntT(n), ty: goTy(c.Type())}
			}
		}
		e.fail(x.tok, "unknown name %s", x.name)
	case "let":
		v := e.eval(x.args[0])
		return e.with(x.name, v).eval(x.args[1])
	case "un":
		return e.unary(x)
	case "bin":
		return e.binary(x)
	case "sel":
		return e.sel(x)
	case "index":
		return e.index(x)
	case "call":
		return e.call(x)
	case "quant":
		env := e
		var vars []*Term
		var guards []*Term
		for _, p := range x.vars {
			ty := e.x.spec.resolveType(p.typ)
			v := FreshVar(p.name, ty.sort())
			vars = append(vars, v)
			env = env.with(p.name, TV{t: v, ty: ty})
		}
		_ = guards
		body := env.boolean(x.args[0])
		var pats [][]*Term
		for _, tr := range x.trigs {
			var ps []*Term
			for _, t := range tr {
				tv := env.eval(t)
				tt := env.val(tv)
				ps = append(ps, tt)
			}
			ok := true
			// a pattern must be an application, not a literal, equality or boolean connective
			for i, p := range ps {
				for p.op == "not" {
					p = p.args[0]
				}
				ps[i] = p
				switch p.op {
				case "var", "true", "false", "int", "ite", "=", "and", "or", "store", "+", "-":
					ok = false
				}
				if hasITE(p) || p.sort == SBool && x.name != "exists" && unmatchable(p) {
					ok = false
				}
			}
			if ok {
				fv := map[*Term]bool{}
				for _, p := range ps {
					for v := range freeBV(p) {
						fv[v] = true
					}
				}
				for _, v := range vars {
					if !fv[v] {
						ok = false
					}
				}
			}
			if ok {
				pats = append(pats, ps)
				if x.name == "exists" {
					// witnesses are found in the memory before the updates, too
					var qs []*Term
					same := true
					for _, p := range ps {
						q := stripStores(p)
						same = same && q == p
						qs = append(qs, q)
					}
					if !same {
						pats = append(pats, qs)
					}
				}
			}
		}
		if x.name == "forall" {
			return TV{t: Forall(vars, pats, body), ty: tyBool}
		}
		return TV{t: Exists(vars, pats, body), ty: tyBool}
	}
	e.fail(x.tok, "cannot evaluate %s", x.op)
	return TV{}
}

func stripStores(t *Term) *Term {
	if t.op == "store" {
		return stripStores(t.args[0])
	}
	if t.op != "select" {
		return t
	}
	return Select(stripStores(t.args[0]), t.args[1])
}

// hasITE: the pattern contains an operator that cannot be matched. Closed subterms do not count, they are named (see patNamed).
func hasITE(t *Term) bool {
	if !t.hasBV {
		return false
	}
	if t.op == "ite" || t.op == "store" || t.op == "forall" || t.op == "and" || t.op == "or" || t.op == "=" || t.op == "<" || t.op == "<=" {
		return true
	}
	for _, a := range t.args {
		if hasITE(a) {
			return true
		}
	}
	return false
}

func (e *Env) unary(x *Expr) TV {
	switch x.name {
	case "!":
		return TV{t: Not(e.boolean(x.args[0])), ty: tyBool}
	case "-":
		return TV{t: Neg(e.val(e.eval(x.args[0]))), ty: tyInt}
	case "&":
		v := e.eval(x.args[0])
		if v.lref == nil {
			e.fail(x.tok, "& needs a heap location")
		}
		return TV{t: v.lref, ty: goTy(types.NewPointer(v.ty.gt))}
	case "*":
		v := e.eval(x.args[0])
		pt, ok := v.ty.gt.Underlying().(*types.Pointer)
		if !ok {
			e.fail(x.tok, "* of non-pointer")
		}
		if v.addr != nil {
			return TV{t: termOf(e.x.loadAddr(e.st, v.addr, e.heap)), ty: goTy(pt.Elem())}
		}
		if isStruct(pt.Elem()) {
			return TV{lref: v.t, ty: goTy(pt.Elem())}
		}
		return TV{t: hsel(e.heap(cellComp(pt.Elem())), v.t), ty: goTy(pt.Elem())}
	}
	e.fail(x.tok, "unary %s", x.name)
	return TV{}
}

// coerce nil literals
func (e *Env) pair(x *Expr) (*Term, *Term, TV, TV) {
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	if a.ty == tyUntyp && b.ty == tyUntyp {
		return True, True, a, b
	}
	if a.ty == tyUntyp {
		return nilFor(e.val(b).sort), e.val(b), b, b
	}
	if b.ty == tyUntyp {
		return e.val(a), nilFor(e.val(a).sort), a, a
	}
	at, bt := e.val(a), e.val(b)
	if at.sort == SReal && bt.sort == SInt {
		bt = App("to_real", SReal, bt)
	}
	return at, bt, a, b
}

func nilFor(s Sort) *Term { return zeroSort(s) }

func (e *Env) binary(x *Expr) TV {
	switch x.name {
	case "&&":
		a := e.boolean(x.args[0])
		if a == False {
			return TV{t: False, ty: tyBool}
		}
		return TV{t: And(a, e.boolean(x.args[1])), ty: tyBool}
	case "||":
		a := e.boolean(x.args[0])
		if a == True {
			return TV{t: True, ty: tyBool}
		}
		return TV{t: Or(a, e.boolean(x.args[1])), ty: tyBool}
	case "==>":
		a := e.boolean(x.args[0])
		if a == False {
			return TV{t: True, ty: tyBool}
		}
		return TV{t: Implies(a, e.boolean(x.args[1])), ty: tyBool}
	case "<==>":
		return TV{t: Iff(e.boolean(x.args[0]), e.boolean(x.args[1])), ty: tyBool}
	case "==", "!=":
		a, b, av, _ := e.pair(x)
		if a.sort != b.sort {
			e.fail(x.tok, "== on %s and %s", a.sort, b.sort)
		}
		var r *Term
		if a.sort == SSlice && (b == NilSlice || a == NilSlice) {
			o := a
			if a == NilSlice {
				o = b
			}
			r = Eq(SlArr(o), Nil)
		} else {
			_ = av
			r = Eq(a, b)
		}
		if x.name == "!=" {
			r = Not(r)
		}
		return TV{t: r, ty: tyBool}
	case "<", "<=", ">", ">=":
		a, b, _, _ := e.pair(x)
		if a.sort == SStr {
			a, b = srank(a), srank(b)
		}
		switch x.name {
		case "<":
			return TV{t: Lt(a, b), ty: tyBool}
		case "<=":
			return TV{t: Le(a, b), ty: tyBool}
		case ">":
			return TV{t: Lt(b, a), ty: tyBool}
		}
		return TV{t: Le(b, a), ty: tyBool}
	case "+", "-", "*":
		a, b := e.val(e.eval(x.args[0])), e.val(e.eval(x.args[1]))
		switch x.name {
		case "+":
			return TV{t: Add(a, b), ty: tyInt}
		case "-":
			return TV{t: Sub(a, b), ty: tyInt}
		}
		return TV{t: Mul(a, b), ty: tyInt}
	case "in":
		k, s := e.eval(x.args[0]), e.eval(x.args[1])
		kt := e.val(k)
		switch s.ty.kind {
		case "set":
			return TV{t: Select(e.val(s), kt), ty: tyBool}
		case "go":
			if m, ok := s.ty.gt.Underlying().(*types.Map); ok {
				dc, _ := mapComps(m)
				return TV{t: Select(e.mapDom(dc, e.val(s)), kt), ty: tyBool}
			}
		}
		e.fail(x.tok, "in: not a set or map")
	}
	e.fail(x.tok, "binary %s", x.name)
	return TV{}
}

func (e *Env) mapDom(dc *Comp, m *Term) *Term {
	if m == Nil {
		return zeroSort(dc.val)
	}
	return hsel(e.heap(dc), m)
}

func srank(t *Term) *Term { return App("srank", SReal, t) }

func findField(t types.Type, name string) ([]int, types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, mainPkg, name)
	if v, ok := obj.(*types.Var); ok {
		return idx, v.Type()
	}
	// unexported field of an extern type
	return nil, nil
}

func (e *Env) sel(x *Expr) TV {
	b := e.eval(x.args[0])
	return e.selOf(x, b, x.name)
}

func (e *Env) selOf(x *Expr, b TV, name string) TV {
	if b.ty.kind != "go" {
		e.fail(x.tok, "field %s of %s", name, b.ty)
	}
	t := b.ty.gt
	ref := b.lref
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if b.addr != nil {
			// pointer to a cell holding a struct
			v := e.x.loadAddr(e.st, b.addr, e.heap)
			return e.selOf(x, TV{t: termOf(v), ty: goTy(pt.Elem())}, name)
		}
		ref = b.t
		t = pt.Elem()
	}
	if strings.HasPrefix(name, "$") {
		tn := typeName(t)
		if types.IsInterface(t) {
			// ghost state of iterators is keyed by the interface value itself
			gf := ghostFields[tn][name]
			if gf == nil {
				gf = ghostFields["Iterator"][name]
			}
			if gf == nil {
				e.fail(x.tok, "no ghost field %s on %s", name, tn)
			}
			return TV{t: Select(e.heap(ghostIfaceComp(gf)), ibase(b.t)), ty: gf.ty}
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			gf := ghostFields["Generator"][name]
			if gf == nil {
				gf = ghostFields["Predicate"][name]
			}
			if gf == nil {
				e.fail(x.tok, "no ghost field %s on functions", name)
			}
			return TV{t: Select(e.heap(ghostFuncComp(gf)), e.val(b)), ty: gf.ty}
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return TV{t: hsel(e.heap(anyMapComp(name, x.tok)), e.val(b)), ty: ghostFields["AnyMap"][name].ty}
		}
		gf := ghostFields[tn][name]
		if gf == nil {
			e.fail(x.tok, "no ghost field %s on %s", name, tn)
		}
		if ref == nil {
			if b.t != nil && identityTypes[tn] {
				ref = selIdx(b.t, 0)
			} else {
				e.fail(x.tok, "ghost field %s of a value of %s", name, tn)
			}
		}
		return TV{t: hsel(e.heap(ghostComp(gf)), ref), ty: gf.ty}
	}
	if name == "$self" {
		return TV{t: selIdx(b.t, 0), ty: goTy(types.NewPointer(t))}
	}
	idx, ft := findField(t, name)
	if idx == nil {
		e.fail(x.tok, "no field %s in %s", name, t)
	}
	_ = ft
	cur := TV{t: b.t, lref: ref, ty: goTy(t)}
	if ref != nil {
		cur.t = nil
	}
	for _, i := range idx {
		st := structOf(cur.ty.gt)
		f := st.Field(i)
		if cur.lref != nil {
			if isStruct(f.Type()) || isArray(f.Type()) {
				cur = TV{lref: SubAddr(typeName(cur.ty.gt)+"_"+f.Name(), cur.lref), ty: goTy(f.Type())}
			} else {
				cur = TV{t: hsel(e.heap(fieldComp(cur.ty.gt, i)), cur.lref), ty: goTy(f.Type())}
			}
		} else {
			cur = TV{t: selIdx(cur.t, dtFieldIdx(cur.ty.gt, i)), ty: goTy(f.Type())}
		}
		if pt, ok := cur.ty.gt.Underlying().(*types.Pointer); ok && i != idx[len(idx)-1] {
			cur = TV{lref: cur.t, ty: goTy(pt.Elem())}
		}
	}
	return cur
}

func isArray(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func ghostIfaceComp(g *GhostField) *Comp { return comp("I:"+g.typ+"."+g.name, g.ty.sort()) }

func (e *Env) index(x *Expr) TV {
	b := e.eval(x.args[0])
	i := e.eval(x.args[1])
	var it *Term
	if i.ty == tyUntyp {
		it = Nil
	} else {
		it = e.val(i)
	}
	switch b.ty.kind {
	case "set":
		return TV{t: Select(e.val(b), it), ty: tyBool}
	case "map":
		return TV{t: Select(e.val(b), it), ty: b.ty.v}
	case "go":
		switch u := b.ty.gt.Underlying().(type) {
		case *types.Map:
			dc, vc := mapComps(u)
			m := e.val(b)
			return TV{t: mapGet(e.heap(dc), e.heap(vc), m, it), ty: goTy(u.Elem())}
		case *types.Slice:
			s := e.val(b)
			return TV{t: At(hsel(e.heap(elemComp(u.Elem())), SlArr(s)), SlOff(s), it), ty: goTy(u.Elem())}
		case *types.Array:
			if b.lref != nil && isStruct(u.Elem()) {
				return TV{lref: ElemAddr(b.lref, it), ty: goTy(u.Elem())}
			}
		}
	}
	e.fail(x.tok, "index of %s", b.ty)
	return TV{}
}

func mapGet(d, v, m, k *Term) *Term {
	val := Select(hsel(v, m), k)
	if m == Nil {
		return zeroSort(val.sort)
	}
	if val.sort == "T_struct__" {
		return val
	}
	return Ite(Select(hsel(d, m), k), val, zeroSort(val.sort))
}

// base of an iterator value: wrappers by value are transparent.
func ibase(i *Term) *Term {
	if strings.HasPrefix(i.op, "box_") {
		info := boxTypes[i.op[4:]]
		if wrapperTypes[i.op[4:]] {
			if i.args[0].sort == SRef {
				return App("pbase", SIface, i)
			}
			return ibase(selIdx(i.args[0], 0))
		}
		_ = info
		return i
	}
	if i == INil {
		return i
	}
	if i.op == "ite" {
		return Ite(i.args[0], ibase(i.args[1]), ibase(i.args[2]))
	}
	return App("ibase", SIface, i)
}

// wrapperTypes: struct types with a single embedded iterator, boxed by value
var wrapperTypes = map[string]bool{}

func (e *Env) call(x *Expr) TV {
	arg := func(i int) *Term { return e.val(e.eval(x.args[i])) }
	switch x.name {
	case "old":
		c := *e
		c.heap = e.old
		c.inOld = true
		return c.eval(x.args[0])
	case "len":
		v := e.eval(x.args[0])
		t := e.val(v)
		switch v.ty.kind {
		case "set":
			return TV{t: card(t), ty: tyInt}
		case "go":
			switch u := v.ty.gt.Underlying().(type) {
			case *types.Slice:
				return TV{t: SlLen(t), ty: tyInt}
			case *types.Map:
				dc, _ := mapComps(u)
				return TV{t: card(e.mapDom(dc, t)), ty: tyInt}
			}
		}
		e.fail(x.tok, "len of %s", v.ty)
	case "dom":
		v := e.eval(x.args[0])
		m := v.ty.gt.Underlying().(*types.Map)
		dc, _ := mapComps(m)
		return TV{t: e.mapDom(dc, e.val(v)), ty: &STy{kind: "set", k: goTy(m.Key()), v: tyBool}}
	case "ite":
		c := e.boolean(x.args[0])
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		var at, bt *Term
		if a.ty != tyUntyp {
			at = e.val(a)
		}
		if b.ty != tyUntyp {
			bt = e.val(b)
		}
		ty := a.ty
		if at == nil {
			at = nilFor(bt.sort)
			ty = b.ty
		}
		if bt == nil {
			bt = nilFor(at.sort)
		}
		return TV{t: Ite(c, at, bt), ty: ty}
	case "add":
		s := e.eval(x.args[0])
		return TV{t: Store(e.val(s), arg(1), True), ty: s.ty}
	case "del":
		s := e.eval(x.args[0])
		return TV{t: Store(e.val(s), arg(1), False), ty: s.ty}
	case "upd":
		s := e.eval(x.args[0])
		v := e.eval(x.args[2])
		var vt *Term
		if v.ty == tyUntyp {
			_, vs := arrParts(e.val(s).sort)
			vt = nilFor(vs)
		} else {
			vt = e.val(v)
		}
		return TV{t: Store(e.val(s), arg(1), vt), ty: s.ty}
	case "emptyset":
		ty := e.x.spec.resolveType(x.typ)
		st := &STy{kind: "set", k: ty, v: tyBool}
		return TV{t: ConstArr(st.sort(), False), ty: st}
	case "boxset":
		ty := e.x.spec.resolveType(x.typ)
		bt := &STy{kind: "set", k: tyAny, v: tyBool}
		Box(boxName(ty.gt), Fresh("b", ty.sort()))
		return TV{t: App("boxset_"+boxName(ty.gt), bt.sort(), arg(0)), ty: bt}
	case "as":
		ty := e.x.spec.resolveType(x.typ)
		return TV{t: Unbox(boxName(ty.gt), ty.sort(), arg(0)), ty: ty}
	case "is":
		ty := e.x.spec.resolveType(x.typ)
		return TV{t: TypIs(boxName(ty.gt), ty.sort(), arg(0)), ty: tyBool}
	case "box":
		ty := e.x.spec.resolveType(x.typ)
		return TV{t: Box(boxName(ty.gt), arg(0)), ty: tyAny}
	case "implements":
		ty := e.x.spec.resolveType(x.typ)
		return TV{t: e.x.implements(arg(0), ty.gt), ty: tyBool}
	case "ref":
		// reinterpret a reference as a pointer type
		ty := e.x.spec.resolveType(x.typ)
		return TV{t: arg(0), ty: ty}
	case "rid":
		v := e.eval(x.args[0])
		if v.lref != nil {
			return TV{t: Rid(v.lref), ty: tyInt}
		}
		t := e.val(v)
		if t.sort == SSlice {
			t = SlArr(t)
		}
		return TV{t: Rid(t), ty: tyInt}
	case "arr":
		return TV{t: SlArr(arg(0)), ty: tyRef}
	case "off":
		return TV{t: SlOff(arg(0)), ty: tyInt}
	case "cap":
		return TV{t: SlCap(arg(0)), ty: tyInt}
	case "fresh":
		// allocated during this call
		v := e.eval(x.args[0])
		t := v.lref
		if t == nil {
			t = e.val(v)
		}
		return TV{t: Le(e.x.entryCounter(e), objID(t)), ty: tyBool}
	case "allocated":
		v := e.eval(x.args[0])
		t := v.lref
		if t == nil {
			t = e.val(v)
		}
		return TV{t: Lt(objID(t), e.x.curCounter(e)), ty: tyBool}
	case "self":
		v := e.eval(x.args[0])
		if v.lref != nil {
			return TV{t: v.lref, ty: goTy(types.NewPointer(v.ty.gt))}
		}
		return TV{t: selIdx(e.val(v), 0), ty: goTy(types.NewPointer(v.ty.gt))}
	case "other":
		// the other member of a set of two
		s := arg(0)
		k, _ := arrParts(s.sort)
		v := e.eval(x.args[0])
		return TV{t: App("cardo_"+sanitize(k), k, s, arg(1)), ty: v.ty.k}
	case "base":
		return TV{t: ibase(arg(0)), ty: tyAny}
	case "sets":
		// content of a slice as array: E[arr]
		v := e.eval(x.args[0])
		u := v.ty.gt.Underlying().(*types.Slice)
		return TV{t: hsel(e.heap(elemComp(u.Elem())), SlArr(e.val(v))), ty: &STy{kind: "map", k: tyInt, v: goTy(u.Elem())}}
	case "app", "callable":
		f := e.eval(x.args[0])
		sig, ok := f.ty.gt.Underlying().(*types.Signature)
		if !ok {
			e.fail(x.tok, "%s of %s", x.name, f.ty)
		}
		ts := []*Term{e.val(f)}
		for i := 1; i < len(x.args); i++ {
			ts = append(ts, arg(i))
		}
		if x.name == "callable" {
			return TV{t: appPre(ts), ty: tyBool}
		}
		rt := sig.Results().At(0).Type()
		return TV{t: appTerm(ts, 0, sortOf(rt)), ty: goTy(rt)}
	case "count":
		// how often a value occurs in a slice
		v := e.eval(x.args[0])
		u := v.ty.gt.Underlying().(*types.Slice)
		s := e.val(v)
		return TV{t: countTerm(hsel(e.heap(elemComp(u.Elem())), SlArr(s)), SlOff(s), SlLen(s), arg(1)), ty: tyInt}
	case "bsize":
		return TV{t: App("bsize", SInt, arg(0)), ty: tyInt}
	case "isum":
		// elements left in the iterators of a slice
		v := e.eval(x.args[0])
		u := v.ty.gt.Underlying().(*types.Slice)
		s := e.val(v)
		td := e.heap(ghostIfaceComp(ghostFields["Iterator"]["$todo"]))
		return TV{t: App("isum", SInt, td, hsel(e.heap(elemComp(u.Elem())), SlArr(s)), SlOff(s), SlLen(s), arg(1)), ty: tyInt}
	case "hashable":
		return TV{t: hashable(arg(0)), ty: tyBool}
	case "parent":
		return TV{t: App("parent", SRef, arg(0)), ty: tyRef}
	}
	if d, ok := e.x.spec.preds[x.name]; ok {
		if len(d.params) != len(x.args) {
			e.fail(x.tok, "arity of %s", x.name)
		}
		c := *e
		c.vars = map[string]TV{}
		if !strings.HasPrefix(x.name, "$") {
			c.lookup = nil
		}
		for i, p := range d.params {
			v := e.eval(x.args[i])
			ty := e.x.spec.resolveType(p.typ)
			if v.ty == tyUntyp {
				v = TV{t: nilFor(ty.sort()), ty: ty}
			} else if v.lref != nil && ty.kind == "go" && isPtr(ty.gt) && isStruct(v.ty.gt) {
				v = TV{t: v.lref, ty: ty}
			} else if v.t != nil && v.t.sort != ty.sort() {
				e.fail(x.tok, "argument %d of %s: %s for %s", i, x.name, v.t.sort, ty.sort())
			} else {
				v.ty = ty
			}
			c.vars[p.name] = v
		}
		return c.eval(d.body)
	}
	if f, ok := e.x.spec.fns[x.name]; ok {
		var as []*Term
		for i := range x.args {
			v := e.eval(x.args[i])
			pt := e.x.spec.resolveType(f.params[i])
			switch {
			case v.ty == tyUntyp:
				as = append(as, nilFor(pt.sort()))
			case v.lref != nil && pt.sort() == SRef:
				as = append(as, v.lref)
			default:
				as = append(as, e.val(v))
			}
			if as[i].sort != pt.sort() {
				e.fail(x.tok, "argument %d of %s: %s for %s", i, x.name, as[i].sort, pt.sort())
			}
		}
		rt := e.x.spec.resolveType(f.ret)
		fnSigs[x.name] = fnSig{mapSorts(as), rt.sort()}
		if r, ok := simplFn(x.name, as); ok {
			return TV{t: r, ty: rt}
		}
		return TV{t: App("u_"+x.name, rt.sort(), as...), ty: rt}
	}
	e.fail(x.tok, "unknown function %s", x.name)
	return TV{}
}

func simplFn(name string, as []*Term) (*Term, bool) { return nil, false }

type fnSig struct {
	args []Sort
	ret  Sort
}

var fnSigs = map[string]fnSig{}

func mapSorts(ts []*Term) []Sort {
	var out []Sort
	for _, t := range ts {
		out = append(out, t.sort)
	}
	return out
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func boxName(t types.Type) string {
	k := sanitize(typeKey(t))
	if _, ok := boxTypesGo[k]; !ok {
		boxTypesGo[k] = t
	}
	return k
}

// card is the number of members of a finite set.
func card(s *Term) *Term {
	k, _ := arrParts(s.sort)
	if s.op == "constarr" && s.args[0] == False {
		return IntT(0)
	}
	if s.op == "store" && s.args[2] == True {
		return Add(card(s.args[0]), Ite(Select(s.args[0], s.args[1]), IntT(0), IntT(1)))
	}
	if s.op == "store" && s.args[2] == False {
		return Add(card(s.args[0]), Ite(Select(s.args[0], s.args[1]), IntT(-1), IntT(0)))
	}
	return App("card_"+sanitize(k), SInt, s)
}
