package main

// Symbolic execution of go/ssa functions, path by path, against contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Addr is an address that is not (only) an object reference.
type Addr struct {
	kind string // cell, comp, slot
	cell cellKey
	comp *Comp
	ref  *Term
	idx  *Term
	off  *Term // slots of slices: idx = off + rel
	rel  *Term
	path []int      // datatype field indexes
	ty   types.Type // type of the location
}

type cellKey struct {
	frame int
	v     ssa.Value
}

type Tuple []Val

type PC struct {
	prev *PC
	t    *Term
	n    int
}

type Deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	id      int
	fn      *ssa.Function
	regs    map[ssa.Value]Val
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	ret     ssa.Value            // register of the caller that receives the results
	names   map[string]ssa.Value // source variable -> Alloc
	defers  []Deferred
	inDefer bool // this frame is a deferred call of the frame below
	con     *Contract
	copies  []*Term // receivers treated as the objects they are copies of
	onRet   func(st *State, res []Val) []*State
}

type LoopCtx struct {
	frame        int
	header       *ssa.BasicBlock
	body         map[*ssa.BasicBlock]bool
	dry          bool
	rec          *WriteSet
	entry        map[string]*Term // heap at loop entry (before havoc)
	invs         []loopInv
	depth        int
	range_       *ssa.Range
	havocd       map[string]bool
	entryCounter *Term
	loopEntryEnv map[cellKey]Val
}

type loopInv struct {
	id    string
	eval  func(st *State) (*Term, error)
	label string
}

type WriteSet struct {
	cells map[cellKey]bool
	refs  map[string]map[*Term]bool // component -> references written
	whole map[string]bool
	alloc bool
}

func newWriteSet() *WriteSet {
	return &WriteSet{cells: map[cellKey]bool{}, refs: map[string]map[*Term]bool{}, whole: map[string]bool{}}
}

type State struct {
	frames    []*Frame
	heap      map[string]*Term
	cells     map[cellKey]Val
	pc        *PC
	base      *Term
	off       int
	loops     []*LoopCtx
	nframe    int
	panicking bool
	recovered bool
	trace     []string
	gvars     map[string]TV
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.names = make(map[string]ssa.Value, len(f.names))
		for k, v := range f.names {
			g.names[k] = v
		}
		g.defers = append([]Deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[cellKey]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.gvars = make(map[string]TV, len(st.gvars))
	for k, v := range st.gvars {
		n.gvars[k] = v
	}
	n.loops = append([]*LoopCtx(nil), st.loops...)
	n.trace = append([]string(nil), st.trace...)
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.t == t {
			return
		}
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &PC{st.pc, t, n + 1}
}

func (st *State) assumptions() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) knows(t *Term) bool {
	if t == True {
		return true
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !st.knows(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (st *State) infeasible() bool {
	for p := st.pc; p != nil; p = p.prev {
		if p.t == False {
			return true
		}
	}
	return false
}

type Obl struct {
	fn     string
	label  string
	pos    string
	assume []*Term
	goal   *Term
	cand   string // loop invariant candidate
	path   []string
	// result
	status  string // trivial, unsat(=discharged), sat, unknown
	backend string
	secs    float64
	output  string
	script  string
	vacuity bool
	cards   bool // use that different finite sets of the same size have different members
}

type Exec struct {
	spec        *Spec
	fn          *ssa.Function
	con         *Contract
	obls        []*Obl
	dry         int
	dropped     map[string]bool
	alloc0      *Term
	entry       map[string]*Term
	params      []Val
	errs        []string
	closures    map[*Term]*Closure
	loopMemo    map[string]*WriteSet
	nret        int
	exits       []*State
	stmts       int
	inlined     map[string]bool
	called      map[string]bool
	assumed     map[string]bool
	steps       int
	pathN       int
	finishFn    func(st *State, res []Val) // override of finish, for closure checks
	groupInv    []*HeapInv
	name        string
	entrySt     *State
	pending     []*State
	entryPanics []*Term
	ncalls      int
	retCover    []*Obl
	entryVars   map[string]TV
	fvBind      []Val
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type unsupported struct{ msg string }

func (x *Exec) unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- heap access ----

func (x *Exec) heapGet(st *State, c *Comp) *Term {
	if t, ok := st.heap[c.name]; ok {
		return t
	}
	t, ok := x.entry[c.name]
	if !ok {
		t = Const("h_"+sanitize(c.name)+"!0", ArrSort(heapKeySort(c), c.val))
		constBirth[t] = birth{baseIndex[x.alloc0], 0}
		x.entry[c.name] = t
	}
	st.heap[c.name] = t
	return t
}

func (x *Exec) heapFn(st *State) func(*Comp) *Term {
	return func(c *Comp) *Term { return x.heapGet(st, c) }
}
func (x *Exec) entryFn() func(*Comp) *Term {
	return func(c *Comp) *Term {
		if t, ok := x.entry[c.name]; ok {
			return t
		}
		tmp := &State{heap: map[string]*Term{}}
		return x.heapGet(tmp, c)
	}
}
func snapFn(x *Exec, snap map[string]*Term) func(*Comp) *Term {
	return func(c *Comp) *Term {
		if t, ok := snap[c.name]; ok {
			return t
		}
		return x.entryFn()(c)
	}
}

func (x *Exec) record(st *State, c *Comp, ref *Term) {
	for _, l := range st.loops {
		if l.dry {
			m := l.rec.refs[c.name]
			if m == nil {
				m = map[*Term]bool{}
				l.rec.refs[c.name] = m
			}
			m[ref] = true
		}
	}
}
func (x *Exec) recordWhole(st *State, c string) {
	for _, l := range st.loops {
		if l.dry {
			l.rec.whole[c] = true
		}
	}
}

func (x *Exec) heapSet(st *State, c *Comp, ref, v *Term) {
	h := x.heapGet(st, c)
	x.record(st, c, ref)
	st.heap[c.name] = Store(h, ref, v)
}

func (x *Exec) freshHeap(st *State, c *Comp) *Term {
	t := Fresh("h_"+c.name, ArrSort(heapKeySort(c), c.val))
	constBirth[t] = birth{baseIndex[st.base], st.off}
	return t
}

func counter(st *State) *Term { return Add(st.base, IntT(int64(st.off))) }

func (x *Exec) entryCounter(e *Env) *Term {
	if v, ok := e.vars["$counter0"]; ok {
		return v.t
	}
	return x.alloc0
}
func (x *Exec) curCounter(e *Env) *Term {
	if e.inOld {
		return x.entryCounter(e)
	}
	return counter(e.st)
}

// known assumes what is always true of a value read from memory or received.
func (x *Exec) known(st *State, t *Term, ty types.Type) {
	switch t.sort {
	case SRef:
		if t == Nil || rootNew(t) != nil {
			return
		}
		st.assume(Lt(Rid(t), counter(st)))
	case SSlice:
		if t.op == "mk_Slice" {
			return
		}
		st.assume(Le(IntT(0), SlOff(t)))
		st.assume(Le(IntT(0), SlLen(t)))
		st.assume(Le(SlLen(t), SlCap(t)))
		st.assume(Implies(Eq(SlArr(t), Nil), Eq(SlCap(t), IntT(0))))
		st.assume(Lt(Rid(SlArr(t)), counter(st)))
	case SIface:
		if t.op != "const" && t.op != "select" {
			return
		}
		if ty != nil && isIterType(ty) {
			st.assume(Lt(irid(ibase(t)), counter(st)))
		}
	case SFunc:
		if t.op != "const" && t.op != "select" {
			return
		}
		st.assume(Lt(frid(t), counter(st)))
	default:
		if d, ok := dtypes[t.sort]; ok && t.op != d.ctor && ty != nil && isStruct(ty) && !externType(ty) {
			s := structOf(ty)
			for i := 0; i < s.NumFields(); i++ {
				x.known(st, selIdx(t, dtFieldIdx(ty, i)), s.Field(i).Type())
			}
		}
	}
}

func termOf(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Addr:
		if v.kind == "comp" && len(v.path) == 0 {
			panic(unsupported{"address of a field used as a value: " + v.comp.name})
		}
		panic(unsupported{"address used as a value"})
	case nil:
		panic(unsupported{"missing value"})
	}
	panic(unsupported{fmt.Sprintf("value %T used as a term", v)})
}

func projectPath(t *Term, path []int) *Term {
	for _, i := range path {
		t = selIdx(t, i)
	}
	return t
}

func updatePath(t *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	d := dtypes[t.sort]
	as := make([]*Term, len(d.fields))
	for i := range d.fields {
		as[i] = selIdx(t, i)
	}
	as[path[0]] = updatePath(as[path[0]], path[1:], v)
	return mkDT(t.sort, as...)
}

func (x *Exec) loadAddr(st *State, a *Addr, heap func(*Comp) *Term) Val {
	switch a.kind {
	case "cell":
		v, ok := st.cells[a.cell]
		if !ok {
			x.unsup("uninitialised cell %v", a.cell)
		}
		if len(a.path) == 0 {
			return v
		}
		return projectPath(termOf(v), a.path)
	case "comp":
		return projectPath(hsel(heap(a.comp), a.ref), a.path)
	case "slot":
		if a.off != nil {
			return projectPath(At(hsel(heap(a.comp), a.ref), a.off, a.rel), a.path)
		}
		return projectPath(Select(hsel(heap(a.comp), a.ref), a.idx), a.path)
	}
	panic("loadAddr")
}

// load reads through a pointer value of type *T.
func (x *Exec) load(st *State, p Val, elem types.Type) Val {
	if a, ok := p.(*Addr); ok {
		v := x.loadAddr(st, a, x.heapFn(st))
		if t, ok := v.(*Term); ok {
			x.known(st, t, a.ty)
		}
		return v
	}
	r := termOf(p)
	x.nonNil(st, r, "nil dereference")
	if isStruct(elem) {
		v := loadStruct(x.heapFn(st), r, elem)
		return v
	}
	if isArray(elem) {
		x.unsup("load of an array")
	}
	v := hsel(x.heapGet(st, cellComp(elem)), r)
	x.known(st, v, elem)
	return v
}

func (x *Exec) store(st *State, p Val, elem types.Type, v Val) {
	if a, ok := p.(*Addr); ok {
		switch a.kind {
		case "cell":
			for _, l := range st.loops {
				if l.dry {
					l.rec.cells[a.cell] = true
				}
			}
			if len(a.path) == 0 {
				st.cells[a.cell] = v
				return
			}
			st.cells[a.cell] = updatePath(termOf(st.cells[a.cell]), a.path, termOf(v))
		case "comp":
			cur := hsel(x.heapGet(st, a.comp), a.ref)
			x.heapSet(st, a.comp, a.ref, updatePath(cur, a.path, termOf(v)))
			if strings.HasSuffix(a.comp.name, "dgeIterator.Iterator") || strings.HasSuffix(a.comp.name, "odeIterator.Iterator") {
				x.wrapperStore(st, a, termOf(v))
			}
		case "slot":
			h := hsel(x.heapGet(st, a.comp), a.ref)
			cur := Select(h, a.idx)
			nv := updatePath(cur, a.path, termOf(v))
			nc := Store(h, a.idx, nv)
			x.seed(st, nc, a.off, a.idx, a.rel, nv)
			x.heapSet(st, a.comp, a.ref, nc)
		}
		return
	}
	r := termOf(p)
	x.nonNil(st, r, "nil dereference")
	if isStruct(elem) {
		x.storeStruct(st, r, elem, termOf(v))
		return
	}
	x.heapSet(st, cellComp(elem), r, termOf(v))
}

// seed gives the solver a ground term for the element just written (quantifiers are instantiated from it).
func (x *Exec) seed(st *State, content, off, idx, rel, v *Term) {
	if content.op != "store" {
		return
	}
	nc := Fresh("content", content.sort)
	st.assume(mk("=", SBool, "", nc, content))
	_, vs := arrParts(content.sort)
	st.assume(mk("=", SBool, "", mk("select", vs, "", nc, idx), v))
	if off != nil && off.op != "int" && rel != nil {
		st.assume(mk("=", SBool, "", mk("at_"+sanitize(vs), vs, "", nc, off, rel), v))
	}
}

// a pointer wrapper around an iterator shares the ghost state of the iterator it wraps
func (x *Exec) wrapperStore(st *State, a *Addr, v *Term) {
	tn := strings.TrimSuffix(strings.TrimPrefix(a.comp.name, "F:"), ".Iterator")
	t := lookupType(tn)
	if t == nil {
		return
	}
	if rootNew(a.ref) == nil {
		x.unsup("wrapped iterator replaced")
	}
	b := Box(boxName(types.NewPointer(t)), a.ref)
	st.assume(Eq(App("pbase", SIface, b), ibase(v)))
}

func (x *Exec) storeStruct(st *State, r *Term, t types.Type, v *Term) {
	if externType(t) {
		x.heapSet(st, comp("X:"+typeName(t), sortOf(t)), r, v)
		return
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fv := selIdx(v, dtFieldIdx(t, i))
		if isStruct(ft) {
			x.storeStruct(st, SubAddr(typeName(t)+"_"+s.Field(i).Name(), r), ft, fv)
		} else if isArray(ft) {
			x.unsup("store of a struct with an array")
		} else {
			x.heapSet(st, fieldComp(t, i), r, fv)
		}
	}
}

// zeroFacts assumes that the fields of a new object are zero (in the current and entry heaps).
func (x *Exec) zeroFacts(st *State, r *Term, t types.Type) {
	emit := func(c *Comp) {
		hs := []*Term{x.heapGet(st, c)}
		if e, ok := x.entry[c.name]; ok && e != hs[0] {
			hs = append(hs, e)
		}
		for _, h := range hs {
			if strings.HasPrefix(c.val, "(Array") {
				k, v := arrParts(c.val)
				q := FreshVar("z", k)
				lhs := mk("select", c.val, "", h, r)
				if v == SBool || v == SInt {
					sel := mk("select", v, "", lhs, q)
					st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, mk("=", SBool, "", sel, zeroSort(v))))
				}
				continue
			}
			st.assume(mk("=", SBool, "", mk("select", c.val, "", h, r), zeroSort(c.val)))
		}
	}
	for _, c := range typeComps(t) {
		emit(c)
	}
	if !isStruct(t) || externType(t) {
		return
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		sub := func() *Term { return SubAddr(typeName(t)+"_"+s.Field(i).Name(), r) }
		if isStruct(ft) {
			x.zeroFacts(st, sub(), ft)
		} else if at, ok := ft.Underlying().(*types.Array); ok && isStruct(at.Elem()) {
			for k := int64(0); k < at.Len(); k++ {
				x.zeroFacts(st, ElemAddr(sub(), IntT(k)), at.Elem())
			}
		}
	}
}

// typeComps: components holding the direct (non-struct) fields and ghost fields of a type.
func typeComps(t types.Type) []*Comp {
	var out []*Comp
	if isStruct(t) && !externType(t) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				continue
			}
			out = append(out, fieldComp(t, i))
		}
	}
	gs := ghostFields[typeName(t)]
	for _, n := range sortedKeys(gs) {
		if !types.IsInterface(t) {
			out = append(out, ghostComp(gs[n]))
		}
	}
	return out
}

// allComps: typeComps of the type and everything embedded in it.
func allComps(t types.Type) []*Comp {
	out := typeComps(t)
	if isStruct(t) && !externType(t) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStruct(ft) {
				out = append(out, allComps(ft)...)
			} else if at, ok := ft.Underlying().(*types.Array); ok && isStruct(at.Elem()) {
				out = append(out, allComps(at.Elem())...)
			}
		}
	}
	return out
}

func (x *Exec) allocObj(st *State, t types.Type) *Term {
	r := New(st.base, st.off)
	st.off++
	for _, l := range st.loops {
		if l.dry {
			l.rec.alloc = true
		}
	}
	if t != nil {
		x.zeroFacts(st, r, t)
		x.zeroIface(st, r, t)
	}
	return r
}

// zeroIface does the same for the ghost fields of the interfaces (other than iterators, whose classes say it) that the
// new object implements.
func (x *Exec) zeroIface(st *State, r *Term, t types.Type) {
	if typeName(t) == "" {
		return
	}
	for _, tn := range sortedKeys(ghostFields) {
		it := lookupType(tn)
		if it == nil || !types.IsInterface(it) || isIterType(it) || tn == "Iterator" || !types.Implements(types.NewPointer(t), it.Underlying().(*types.Interface)) {
			continue
		}
		keys := []*Term{Box(boxName(types.NewPointer(t)), r)}
		for _, bn := range sortedKeys(boxTypesGo) {
			// no object of another type is there either
			if p, ok := boxTypesGo[bn].(*types.Pointer); ok && bn != boxName(types.NewPointer(t)) && types.Implements(p, it.Underlying().(*types.Interface)) {
				keys = append(keys, Box(bn, r))
			}
		}
		for _, n := range sortedKeys(ghostFields[tn]) {
			for _, k := range keys {
				c := ghostIfaceComp(ghostFields[tn][n])
				hs := []*Term{x.heapGet(st, c)}
				if e, ok := x.entry[c.name]; ok && e != hs[0] {
					hs = append(hs, e)
				}
				for _, h := range hs {
					if !strings.HasPrefix(c.val, "(Array") {
						st.assume(mk("=", SBool, "", mk("select", c.val, "", h, k), zeroSort(c.val)))
						continue
					}
					ks, v := arrParts(c.val)
					if v == SBool || v == SInt {
						q := FreshVar("z", ks)
						sel := mk("select", v, "", mk("select", c.val, "", h, k), q)
						st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, mk("=", SBool, "", sel, zeroSort(v))))
					}
				}
			}
		}
	}
}

// ---- obligations ----

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) curPos(st *State) string {
	if len(st.frames) == 0 {
		return ""
	}
	f := st.top()
	if f.blk != nil && f.pc < len(f.blk.Instrs) {
		for i := f.pc; i >= 0; i-- {
			if p := x.pos(f.blk.Instrs[i].Pos()); p != "" {
				return p
			}
		}
	}
	return x.pos(f.fn.Pos())
}

func (x *Exec) oblige(st *State, label string, goal *Term, cand string) {
	if x.dry > 0 {
		return
	}
	if cand != "" && x.dropped[cand] {
		return
	}
	if goal.op == "and" {
		for _, g := range goal.args {
			x.oblige(st, label, g, cand)
		}
		return
	}
	o := &Obl{fn: x.name, label: label, pos: x.curPos(st), goal: goal, cand: cand, cards: x.con != nil && hasStr(x.con.uses, "cards")}
	if st.knows(goal) {
		o.status = "trivial"
		x.obls = append(x.obls, o)
		return
	}
	o.assume = st.assumptions()
	o.path = append([]string(nil), st.trace...)
	x.obls = append(x.obls, o)
}

func (x *Exec) hasDefers(st *State) bool {
	for _, f := range st.frames {
		if len(f.defers) > 0 {
			return true
		}
	}
	return false
}

// require: the program panics unless cond holds. In a function whose panics are recovered the panic is a path of its own.
func (x *Exec) require(st *State, cond *Term, what string) {
	if cond == True || st.knows(cond) {
		return
	}
	if x.hasDefers(st) {
		p := st.clone()
		p.assume(Not(cond))
		x.pending = append(x.pending, p)
		st.assume(cond)
		return
	}
	goal := cond
	if x.con != nil && len(x.con.panics) > 0 && len(x.entryPanics) > 0 {
		goal = Or(cond, Or(x.entryPanics...))
	}
	x.oblige(st, "no panic: "+what, goal, "")
	st.assume(cond)
}

func (x *Exec) nonNil(st *State, r *Term, what string) {
	x.require(st, Not(Eq(r, nilFor(r.sort))), what)
}

// ---- running ----

func (x *Exec) run(st *State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			x.steps++
			if x.steps > 3000000 {
				x.unsup("too many steps")
			}
			next := x.step(s)
			for _, p := range x.pending {
				work = append(work, x.raise(p)...)
			}
			x.pending = nil
			if len(next) == 0 {
				s = nil
				break
			}
			s = next[0]
			work = append(work, next[1:]...)
		}
	}
}

func (x *Exec) constVal(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.Int:
		if sortOf(t) == SFlt {
			return App("flt_"+sanitize(c.Value.ExactString()), SFlt)
		}
		return mk("int", SInt, c.Value.ExactString())
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	}
	return App("konst_"+sanitize(c.Value.ExactString()), sortOf(t))
}

func (x *Exec) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		if con := x.spec.contracts[contractName(v)]; con != nil && v.Parent() != nil && len(v.FreeVars) == 0 && (con.acc != nil || con.gen != nil || con.pure) {
			// a function literal that captures nothing
			t := Fresh("clo_"+v.Name(), SFunc)
			x.closures[t] = &Closure{fn: v}
			st.assume(Not(Eq(t, FNil)))
			x.closureFacts(st, t, v, nil)
			return t
		}
		t := Const("fn_"+sanitize(fullFnName(v)), SFunc)
		x.closures[t] = &Closure{fn: v}
		st.assume(Not(Eq(t, FNil)))
		return t
	case *ssa.Global:
		return &Addr{kind: "comp", comp: cellComp(v.Type().Underlying().(*types.Pointer).Elem()), ref: Const("glob_"+sanitize(v.Name()), SRef), ty: v.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return nil
	}
	f := st.top()
	r, ok := f.regs[v]
	if !ok {
		x.unsup("no value for %s in %s", v.Name(), f.fn.Name())
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term { return termOf(x.get(st, v)) }

func (st *State) setReg(v ssa.Value, val Val) {
	st.top().regs[v] = val
}

func (x *Exec) step(st *State) []*State {
	f := st.top()
	if f.pc >= len(f.blk.Instrs) {
		x.unsup("fell off block")
	}
	ins := f.blk.Instrs[f.pc]
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		x.alloc(st, i)
	case *ssa.Store:
		if a, ok := i.Addr.(*ssa.Alloc); ok && receiverCopy(a) == i {
			v := x.term(st, i.Val)
			x.oblige(st, "the receiver is a copy of an object as it is", Eq(x.loadObj(st, selIdx(v, 0), i.Val.Type()), v), "")
			f.copies = append(f.copies[:len(f.copies):len(f.copies)], v)
			break
		}
		x.store(st, x.get(st, i.Addr), i.Val.Type(), x.get(st, i.Val))
	case *ssa.UnOp:
		st.setReg(i, x.unop(st, i))
	case *ssa.BinOp:
		st.setReg(i, x.binop(st, i))
	case *ssa.FieldAddr:
		st.setReg(i, x.fieldAddr(st, i))
	case *ssa.Field:
		st.setReg(i, selIdx(x.term(st, i.X), dtFieldIdx(i.X.Type(), i.Field)))
	case *ssa.IndexAddr:
		st.setReg(i, x.indexAddr(st, i))
	case *ssa.Index:
		t := x.term(st, i.X)
		ix := x.term(st, i.Index)
		if t.sort == SStr {
			st.setReg(i, App("strbyte", SInt, t, ix))
		} else {
			st.setReg(i, Select(t, ix))
		}
	case *ssa.Lookup:
		st.setReg(i, x.lookup(st, i))
	case *ssa.MapUpdate:
		m := x.term(st, i.Map)
		x.nonNil(st, m, "assignment to entry in nil map")
		dc, vc := mapComps(i.Map.Type().Underlying().(*types.Map))
		k, v := x.term(st, i.Key), x.term(st, i.Value)
		x.needHashable(st, k)
		nd := Store(hsel(x.heapGet(st, dc), m), k, True)
		x.seed(st, nd, nil, k, nil, True)
		x.heapSet(st, dc, m, nd)
		x.heapSet(st, vc, m, Store(hsel(x.heapGet(st, vc), m), k, v))
	case *ssa.MakeMap:
		r := x.allocObj(st, nil)
		dc, vc := mapComps(i.Type().Underlying().(*types.Map))
		x.heapSet(st, dc, r, zeroSort(dc.val))
		_ = vc
		st.setReg(i, r)
	case *ssa.MakeSlice:
		n, c := x.term(st, i.Len), x.term(st, i.Cap)
		x.require(st, And(Le(IntT(0), n), Le(n, c)), "make: length out of range")
		ec := elemComp(i.Type().Underlying().(*types.Slice).Elem())
		r := x.allocObj(st, nil)
		x.heapSet(st, ec, r, zeroSort(ec.val))
		st.setReg(i, MkSlice(r, IntT(0), n, c))
	case *ssa.Slice:
		st.setReg(i, x.slice(st, i))
	case *ssa.MakeInterface:
		v := x.get(st, i.X)
		t := termOf(v)
		b := x.makeIface(st, t, i.X.Type())
		if isIterType(i.Type()) {
			x.iterFacts(st, b, t, i.X.Type())
		}
		st.setReg(i, b)
	case *ssa.ChangeInterface:
		st.setReg(i, x.get(st, i.X))
	case *ssa.ChangeType:
		st.setReg(i, x.get(st, i.X))
	case *ssa.Convert:
		v := x.term(st, i.X)
		s := sortOf(i.Type())
		if v.sort == s {
			st.setReg(i, v)
		} else {
			st.setReg(i, App("conv_"+sanitize(typeKey(i.X.Type()))+"_"+sanitize(typeKey(i.Type())), s, v))
		}
	case *ssa.TypeAssert:
		x.typeAssert(st, i)
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, x.get(st, v))
		}
		t := Fresh("clo_"+i.Fn.Name(), SFunc)
		x.closures[t] = &Closure{i.Fn.(*ssa.Function), b}
		st.assume(Not(Eq(t, FNil)))
		x.closureFacts(st, t, i.Fn.(*ssa.Function), b)
		st.setReg(i, t)
	case *ssa.Extract:
		v := x.get(st, i.Tuple)
		tp, ok := v.(Tuple)
		if !ok {
			x.unsup("extract from %T", v)
		}
		st.setReg(i, tp[i.Index])
	case *ssa.Phi:
		for k, p := range f.blk.Preds {
			if p == f.prev {
				st.setReg(i, x.get(st, i.Edges[k]))
			}
		}
	case *ssa.Range:
		st.setReg(i, x.get(st, i.X))
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			key := cellKey{f.id, i}
			st.cells[key] = ConstArr(ArrSort(sortOf(m.Key()), SBool), False)
			dc, _ := mapComps(m)
			mt := x.term(st, i.X)
			d := zeroSort(dc.val)
			if mt != Nil {
				d = hsel(x.heapGet(st, dc), mt)
				x.nilMapFact(st, dc, mt)
			}
			st.cells[cellKey{-f.id - 1, i}] = d
		} else {
			x.unsup("range over a string")
		}
	case *ssa.Next:
		return x.next(st, i)
	case *ssa.Call:
		return x.call(st, i, &i.Call)
	case *ssa.Defer:
		d := Deferred{call: &i.Call}
		if i.Call.IsInvoke() {
			x.unsup("deferred invoke")
		}
		if fn, ok := i.Call.Value.(*ssa.Builtin); ok {
			x.unsup("deferred builtin %s", fn.Name())
		}
		d.fn = x.get(st, i.Call.Value)
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.get(st, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return x.callDeferred(st, d, func(s *State) []*State { return []*State{s} })
		}
	case *ssa.If:
		c := x.term(st, i.Cond)
		return x.branch(st, c, f.blk.Succs[0], f.blk.Succs[1])
	case *ssa.Jump:
		return x.enter(st, f.blk.Succs[0])
	case *ssa.Return:
		for _, v := range f.copies {
			// the copy was treated as the object itself
			for _, p := range f.fn.Params {
				if t, ok := f.regs[p].(*Term); ok && t == v {
					x.oblige(st, "the copy of the receiver is not changed", Eq(x.loadObj(st, selIdx(v, 0), p.Type()), v), "")
				}
			}
		}
		var res []Val
		for _, r := range i.Results {
			res = append(res, x.get(st, r))
		}
		return x.ret(st, res)
	case *ssa.Panic:
		return x.raise(st)
	default:
		if strings.Contains(ins.String(), "ssa:deferstack") {
			break
		}
		x.unsup("instruction %T in %s", ins, f.fn.Name())
	}
	f.pc++
	return []*State{st}
}

func (x *Exec) makeIface(st *State, t *Term, ty types.Type) *Term {
	k := boxName(ty)
	boxTypesGo[k] = ty
	if s, ok := ty.Underlying().(*types.Struct); ok && s.NumFields() == 1 && s.Field(0).Embedded() && types.IsInterface(s.Field(0).Type()) {
		wrapperTypes[k] = true
	}
	return Box(k, t)
}

func (x *Exec) nilMapFact(st *State, dc *Comp, m *Term) {
	k, _ := arrParts(dc.val)
	_ = k
	st.assume(Implies(Eq(m, Nil), Eq(mk("select", dc.val, "", x.heapGet(st, dc), m), zeroSort(dc.val))))
}

func (x *Exec) branch(st *State, c *Term, a, b *ssa.BasicBlock) []*State {
	if c == True || st.knows(c) {
		return x.enter(st, a)
	}
	if c == False || st.knows(Not(c)) {
		return x.enter(st, b)
	}
	n := st.clone()
	p := x.curPos(st)
	st.assume(c)
	st.trace = append(st.trace, p+":T")
	n.assume(Not(c))
	n.trace = append(n.trace, p+":F")
	var out []*State
	if !st.infeasible() {
		out = append(out, x.enter(st, a)...)
	}
	if !n.infeasible() {
		out = append(out, x.enter(n, b)...)
	}
	return out
}

func (x *Exec) alloc(st *State, i *ssa.Alloc) {
	f := st.top()
	t := i.Type().Underlying().(*types.Pointer).Elem()
	if i.Comment != "" {
		f.names[i.Comment] = i
	}
	if strings.Contains(t.String(), "ssa.deferStack") {
		st.setReg(i, &Addr{kind: "cell", cell: cellKey{f.id, i}, ty: t})
		st.cells[cellKey{f.id, i}] = True
		return
	}
	if !i.Heap && !isArray(t) {
		k := cellKey{f.id, i}
		st.cells[k] = zeroOf(t)
		for _, l := range st.loops {
			if l.dry {
				l.rec.cells[k] = true
			}
		}
		st.setReg(i, &Addr{kind: "cell", cell: k, ty: t})
		return
	}
	if isArray(t) {
		at := t.Underlying().(*types.Array)
		ec := elemComp(at.Elem())
		r := x.allocObj(st, nil)
		x.heapSet(st, ec, r, zeroSort(ec.val))
		st.setReg(i, r)
		return
	}
	if isStruct(t) && captureOnly(i) {
		c := cellComp(t)
		r := x.allocObj(st, nil)
		x.heapSet(st, c, r, zeroOf(t))
		st.setReg(i, &Addr{kind: "comp", comp: c, ref: r, ty: t})
		return
	}
	if s := receiverCopy(i); s != nil {
		st.setReg(i, selIdx(x.term(st, s.Val), 0))
		return
	}
	if isStruct(t) {
		r := x.allocObj(st, t)
		st.setReg(i, r)
		st.assume(Not(Eq(r, Nil)))
		return
	}
	c := cellComp(t)
	r := x.allocObj(st, nil)
	x.heapSet(st, c, r, zeroOf(t))
	st.setReg(i, r)
}

// receiverCopy: the variable holds the copy of a parameter of an identity type, which is treated as the object it was copied from.
func receiverCopy(a *ssa.Alloc) *ssa.Store {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	if !isStruct(t) || !identityTypes[typeName(t)] || captureOnly(a) {
		return nil
	}
	var s *ssa.Store
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.Store); ok && u.Addr == a {
			if s != nil {
				return nil
			}
			s = u
		}
	}
	if s == nil {
		return nil
	}
	if _, ok := s.Val.(*ssa.Parameter); !ok {
		return nil
	}
	return s
}

func (x *Exec) loadObj(st *State, ref *Term, t types.Type) *Term {
	return loadStruct(func(c *Comp) *Term { return x.heapGet(st, c) }, ref, t)
}

// captureOnly: a struct variable whose address is used only for direct access and closure capture.
func captureOnly(v ssa.Value) bool {
	return capOnly(v, map[ssa.Value]bool{})
}

func capOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	captured := false
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr != v {
				return false
			}
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !capOnly(u, seen) {
				return false
			}
		case *ssa.MakeClosure:
			captured = true
			for k, b := range u.Bindings {
				if b == v && !capOnly(u.Fn.(*ssa.Function).FreeVars[k], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	_ = captured
	return true
}

func (x *Exec) fieldAddr(st *State, i *ssa.FieldAddr) Val {
	pt := i.X.Type().Underlying().(*types.Pointer).Elem()
	b := x.get(st, i.X)
	ft := structOf(pt).Field(i.Field).Type()
	if a, ok := b.(*Addr); ok {
		n := *a
		n.path = append(append([]int(nil), a.path...), dtFieldIdx(pt, i.Field))
		n.ty = ft
		return &n
	}
	r := termOf(b)
	x.nonNil(st, r, "nil dereference")
	if isStruct(ft) || isArray(ft) {
		return SubAddr(typeName(pt)+"_"+structOf(pt).Field(i.Field).Name(), r)
	}
	return &Addr{kind: "comp", comp: fieldComp(pt, i.Field), ref: r, ty: ft}
}

func (x *Exec) indexAddr(st *State, i *ssa.IndexAddr) Val {
	b := x.get(st, i.X)
	ix := x.term(st, i.Index)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := termOf(b)
		x.require(st, And(Le(IntT(0), ix), Lt(ix, SlLen(s))), "index out of range")
		return &Addr{kind: "slot", comp: elemComp(u.Elem()), ref: SlArr(s), idx: Add(SlOff(s), ix), off: SlOff(s), rel: ix, ty: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.require(st, And(Le(IntT(0), ix), Lt(ix, IntT(at.Len()))), "index out of range")
		r := termOf(b)
		if isSub(r) && isStruct(at.Elem()) {
			return ElemAddr(r, ix)
		}
		return &Addr{kind: "slot", comp: elemComp(at.Elem()), ref: r, idx: ix, ty: at.Elem()}
	}
	x.unsup("index of %s", i.X.Type())
	return nil
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	b := x.get(st, i.X)
	var lo, hi *Term
	if i.Low != nil {
		lo = x.term(st, i.Low)
	} else {
		lo = IntT(0)
	}
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := IntT(at.Len())
		hi = n
		if i.High != nil {
			hi = x.term(st, i.High)
		}
		x.require(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range")
		return MkSlice(termOf(b), lo, Sub(hi, lo), Sub(n, lo))
	}
	s := termOf(b)
	if s.sort == SStr {
		h := IntT(-1)
		if i.High != nil {
			h = x.term(st, i.High)
		}
		return App("substr", SStr, s, lo, h)
	}
	hi = SlLen(s)
	if i.High != nil {
		hi = x.term(st, i.High)
	}
	mx := SlCap(s)
	if i.Max != nil {
		mx = x.term(st, i.Max)
		x.require(st, And(Le(hi, mx), Le(mx, SlCap(s))), "slice bounds out of range")
	}
	x.require(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, mx)), "slice bounds out of range")
	if i.High != nil {
		// content between len and cap is not modelled
		x.oblige(st, "no reslicing beyond the length", Le(hi, SlLen(s)), "")
	}
	off := Add(SlOff(s), lo)
	if lo != IntT(0) {
		if ut, ok := i.X.Type().Underlying().(*types.Slice); ok {
			// elements of the part are elements of the whole
			ec := elemComp(ut.Elem())
			_, vs := arrParts(ec.val)
			h, q := FreshVar("h", ec.val), FreshVar("i", SInt)
			at := mk("at_"+sanitize(vs), vs, "", h, off, q)
			st.assume(Forall([]*Term{h, q}, [][]*Term{{at}}, mk("=", SBool, "", at, At(h, SlOff(s), Add(q, lo)))))
		}
	}
	return MkSlice(SlArr(s), off, Sub(hi, lo), Sub(mx, lo))
}

func (x *Exec) unop(st *State, i *ssa.UnOp) Val {
	switch i.Op {
	case token.MUL:
		return x.load(st, x.get(st, i.X), i.Type())
	case token.NOT:
		return Not(x.term(st, i.X))
	case token.SUB:
		t := x.term(st, i.X)
		if t.sort == SInt {
			return Neg(t)
		}
	}
	x.unsup("unary %s", i.Op)
	return nil
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Val {
	av, bv := x.get(st, i.X), x.get(st, i.Y)
	// comparing a cell address with nil
	if _, ok := av.(*Addr); ok {
		if i.Op == token.NEQ {
			return True
		}
		return False
	}
	a, b := termOf(av), termOf(bv)
	switch i.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if a.sort != b.sort {
			// concrete against interface
			if a.sort == SIface {
				b = Box(boxName(i.Y.Type()), b)
			} else if b.sort == SIface {
				a = Box(boxName(i.X.Type()), a)
			}
		}
		if a.sort == SSlice {
			o := a
			if a == NilSlice {
				o = b
			}
			r = Eq(SlArr(o), Nil)
		} else {
			r = x.goEq(a, b)
		}
		if i.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	switch a.sort {
	case SStr:
		switch i.Op {
		case token.ADD:
			return App("strcat", SStr, a, b)
		case token.LSS:
			return Lt(srank(a), srank(b))
		case token.LEQ:
			return Le(srank(a), srank(b))
		case token.GTR:
			return Lt(srank(b), srank(a))
		case token.GEQ:
			return Le(srank(b), srank(a))
		}
	case SInt:
		switch i.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO:
			return App("godiv", SInt, a, b)
		case token.REM:
			return App("gomod", SInt, a, b)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return App("gobit_"+sanitize(i.Op.String()), SInt, a, b)
		}
	case SBool:
		switch i.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	case SFlt:
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return App("flt_"+sanitize(i.Op.String()), SBool, a, b)
		}
		return App("flt_"+sanitize(i.Op.String()), SFlt, a, b)
	}
	x.unsup("binary %s on %s", i.Op, a.sort)
	return nil
}

func (x *Exec) goEq(a, b *Term) *Term { return Eq(a, b) }

// needHashable: using a value that cannot be hashed as a key panics.
func (x *Exec) needHashable(st *State, k *Term) {
	if k.sort == SIface {
		x.require(st, hashable(k), "the key can be hashed")
	}
}

func hashable(k *Term) *Term {
	if k == INil {
		return True
	}
	if strings.HasPrefix(k.op, "box_") {
		if bt := boxGoType(k.op[4:]); bt != nil {
			switch hashableType(bt) {
			case 1:
				return True
			case -1:
				return False
			}
		}
	}
	return App("hashable", SBool, k)
}

// hashableType: 1 if all values of the type can be hashed, -1 if none, 0 if it depends on the value.
func hashableType(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		return -1
	case *types.Basic, *types.Pointer, *types.Chan:
		return 1
	case *types.Struct:
		r := 1
		for i := 0; i < u.NumFields(); i++ {
			switch hashableType(u.Field(i).Type()) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	}
	return 0
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) Val {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		return App("strbyte", SInt, x.term(st, i.X), x.term(st, i.Index))
	}
	dc, vc := mapComps(mt)
	m, k := x.term(st, i.X), x.term(st, i.Index)
	x.needHashable(st, k)
	x.nilMapFact(st, dc, m)
	var in *Term
	if m == Nil {
		in = False
	} else {
		in = Select(hsel(x.heapGet(st, dc), m), k)
	}
	v := Select(hsel(x.heapGet(st, vc), m), k)
	z := zeroSort(v.sort)
	val := Ite(in, v, z)
	if st.knows(in) {
		val = v
	} else if st.knows(Not(in)) {
		val = z
	}
	x.known(st, v, mt.Elem())
	if i.CommaOk {
		return Tuple{val, in}
	}
	return val
}

func (x *Exec) next(st *State, i *ssa.Next) []*State {
	f := st.top()
	r := i.Iter.(*ssa.Range)
	mt := r.X.Type().Underlying().(*types.Map)
	dc, vc := mapComps(mt)
	m := x.term(st, r)
	key := cellKey{f.id, r}
	vis := termOf(st.cells[key])
	dom0 := termOf(st.cells[cellKey{-f.id - 1, r}])
	dom := zeroSort(dc.val)
	if m != Nil {
		dom = hsel(x.heapGet(st, dc), m)
	}
	for _, l := range st.loops {
		if l.dry {
			l.rec.cells[key] = true
		}
	}
	ks := sortOf(mt.Key())
	// done
	done := st.clone()
	q := FreshVar("k", ks)
	body := Implies(And(Select(dom0, q), Select(dom, q)), Select(vis, q))
	done.assume(Forall([]*Term{q}, [][]*Term{{mk("select", SBool, "", vis, q)}, {mk("select", SBool, "", dom, q)}}, body))
	done.setReg(i, Tuple{False, zeroSort(ks), zeroOf(mt.Elem())})
	done.top().pc++
	// one more key
	k := Fresh("key", ks)
	st.assume(Select(dom, k))
	st.assume(Not(Select(vis, k)))
	x.known(st, k, mt.Key())
	st.cells[key] = Store(vis, k, True)
	v := Select(hsel(x.heapGet(st, vc), m), k)
	x.known(st, v, mt.Elem())
	st.setReg(i, Tuple{True, k, v})
	st.top().pc++
	var out []*State
	if !st.infeasible() && dom != zeroSort(dc.val) {
		out = append(out, st)
	}
	return append(out, done)
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) {
	v := x.term(st, i.X)
	t := i.AssertedType
	if types.IsInterface(t) {
		ok := x.implements(v, t)
		if i.CommaOk {
			st.setReg(i, Tuple{Ite(ok, v, INil), ok})
		} else {
			x.require(st, ok, "type assertion")
			st.setReg(i, v)
		}
		return
	}
	k, s := boxName(t), sortOf(t)
	ok := TypIs(k, s, v)
	u := Unbox(k, s, v)
	x.known(st, u, t)
	if i.CommaOk {
		val := Ite(ok, u, zeroSort(s))
		if st.knows(ok) {
			val = u
		}
		st.setReg(i, Tuple{val, ok})
		return
	}
	x.require(st, ok, "type assertion to "+typeKey(t))
	st.setReg(i, u)
}

// implements: does the dynamic type of v implement interface t?
func (x *Exec) implements(v *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Not(Eq(v, INil))
	}
	if v == INil {
		return False
	}
	if strings.HasPrefix(v.op, "box_") {
		if bt := boxGoType(v.op[4:]); bt != nil {
			return BoolT(types.Implements(bt, it))
		}
	}
	n := "impl_" + sanitize(typeKey(t))
	implIfaces[n] = it
	return App(n, SBool, TypOf(v))
}

var implIfaces = map[string]*types.Interface{}

// ---- control flow ----

func dominates(a, b *ssa.BasicBlock) bool { return a.Dominates(b) }

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				var walk func(n *ssa.BasicBlock)
				walk = func(n *ssa.BasicBlock) {
					if li.body[n] {
						return
					}
					li.body[n] = true
					for _, p := range n.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	loopCache[fn] = out
	return out
}

func (x *Exec) enter(st *State, b *ssa.BasicBlock) []*State {
	f := st.top()
	// leave loops of this frame that do not contain b
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.frame == f.id && !l.body[b] {
			if l.dry {
				return nil
			}
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	f.prev, f.blk, f.pc = f.blk, b, 0
	if li, ok := loopsOf(f.fn)[b]; ok {
		if len(st.loops) > 0 {
			l := st.loops[len(st.loops)-1]
			if l.frame == f.id && l.header == b {
				// back edge
				if !l.dry {
					for _, iv := range l.invs {
						if x.dropped[iv.id] {
							continue
						}
						t, err := iv.eval(st)
						if err == nil {
							x.oblige(st, "loop invariant kept: "+iv.label, t, iv.id)
						}
					}
				}
				return nil
			}
		}
		return x.enterLoop(st, li)
	}
	return []*State{st}
}

func (x *Exec) loopKey(f *Frame, b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#%d", fullFnName(f.fn), b.Index)
}

func (x *Exec) enterLoop(st *State, li *loopInfo) []*State {
	f := st.top()
	ctx := &LoopCtx{frame: f.id, header: li.header, body: li.body, depth: len(st.frames)}
	for _, ins := range li.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			ctx.range_ = n.Iter.(*ssa.Range)
		}
	}
	memoKey := x.loopKey(f, li.header) + fmt.Sprint(len(st.frames))
	if x.con.perPath {
		memoKey += fmt.Sprint(st.trace)
	}
	ws := x.loopMemo[memoKey]
	if ws == nil {
		ws = newWriteSet()
		x.loopMemo[memoKey] = ws
	}
	mark := stampCount
	// components live before the loop
	ctx.entry = map[string]*Term{}
	for k, v := range st.heap {
		ctx.entry[k] = v
	}
	ctx.entryCounter = counter(st)
	for round := 0; ; round++ {
		if round > 12 {
			x.unsup("loop write set does not stabilise in %s", f.fn.Name())
		}
		d := st.clone()
		c := *ctx
		c.dry = true
		c.rec = newWriteSet()
		x.havocLoop(d, st, &c, ws, mark)
		d.loops = append(d.loops, &c)
		x.dry++
		x.assumeInvs(d, st, &c)
		x.run(d)
		x.dry--
		if !ws.merge(c.rec, x, st, mark, f.id) {
			break
		}
	}
	// propagate what this loop writes to enclosing dry loops
	for _, l := range st.loops {
		if l.dry {
			for k := range ws.cells {
				l.rec.cells[k] = true
			}
			for c, m := range ws.refs {
				for r := range m {
					if l.rec.refs[c] == nil {
						l.rec.refs[c] = map[*Term]bool{}
					}
					l.rec.refs[c][r] = true
				}
			}
			for c := range ws.whole {
				l.rec.whole[c] = true
			}
			if ws.alloc {
				l.rec.alloc = true
			}
		}
	}
	pre := st.clone()
	x.havocLoop(st, pre, ctx, ws, mark)
	st.loops = append(st.loops, ctx)
	x.buildInvs(st, pre, ctx, ws)
	for _, iv := range ctx.invs {
		if x.dropped[iv.id] {
			continue
		}
		pre2 := pre.clone()
		pre2.loops = append(pre2.loops, ctx)
		t, err := iv.eval(pre2)
		if err != nil {
			if os.Getenv("VC_DEBUG") != "" && strings.Contains(iv.id, "/inv") {
				fmt.Println("invariant not evaluated:", x.con.name, iv.label, err)
			}
			x.dropped[iv.id] = true
			continue
		}
		pre2.pc = pre.pc
		x.oblige(pre2, "loop invariant holds at entry: "+iv.label, t, iv.id)
	}
	for _, iv := range ctx.invs {
		if x.dropped[iv.id] {
			continue
		}
		if t, err := iv.eval(st); err == nil {
			st.assume(t)
		}
	}
	return []*State{st}
}

func (x *Exec) assumeInvs(d, pre *State, c *LoopCtx) {
	// dry runs only collect writes: no invariants needed
}

// stable: the reference is built from values that exist before the loop
func stableTerm(t *Term, mark int, cache map[*Term]bool) bool {
	if v, ok := cache[t]; ok {
		return v
	}
	ok := true
	if t.op == "const" && t.stamp > mark {
		ok = false
	}
	for _, a := range t.args {
		if !stableTerm(a, mark, cache) {
			ok = false
			break
		}
	}
	cache[t] = ok
	return ok
}

func (ws *WriteSet) merge(r *WriteSet, x *Exec, st *State, mark int, frame int) bool {
	ch := false
	for k := range r.cells {
		if !ws.cells[k] {
			// only cells that exist before the loop matter
			if _, ok := st.cells[k]; ok {
				ws.cells[k] = true
				ch = true
			}
		}
	}
	cache := map[*Term]bool{}
	for c, m := range r.refs {
		for t := range m {
			if n := keyNew(t); n != nil && newInLoop(n, st) {
				t = freshMarker
			} else if !stableTerm(t, mark, cache) {
				if !ws.whole[c] {
					ws.whole[c] = true
					ch = true
				}
				continue
			}
			if ws.refs[c] == nil {
				ws.refs[c] = map[*Term]bool{}
			}
			if !ws.refs[c][t] {
				ws.refs[c][t] = true
				ch = true
			}
		}
	}
	for c := range r.whole {
		if !ws.whole[c] {
			ws.whole[c] = true
			ch = true
		}
	}
	if r.alloc && !ws.alloc {
		ws.alloc = true
		ch = true
	}
	return ch
}

var freshMarker = Const("fresh-in-loop", SRef)

func newInLoop(n *Term, st *State) bool {
	bi := baseIndex[n.args[0]]
	ci := baseIndex[st.base]
	if bi != ci {
		return bi > ci
	}
	var k int
	fmt.Sscan(n.name, &k)
	return k >= st.off
}

func (x *Exec) havocLoop(st, pre *State, ctx *LoopCtx, ws *WriteSet, mark int) {
	before := counter(pre)
	if ws.alloc {
		nb := newBase()
		st.base, st.off = nb, 0
		st.assume(Le(before, nb))
	}
	ctx.havocd = map[string]bool{}
	var ks []cellKey
	for k := range ws.cells {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].frame != ks[j].frame {
			return ks[i].frame < ks[j].frame
		}
		return ks[i].v.Name() < ks[j].v.Name()
	})
	for _, k := range ks {
		old, ok := st.cells[k]
		if !ok {
			continue
		}
		t, isT := old.(*Term)
		if !isT {
			// closures and addresses assigned in a loop: forget
			delete(st.cells, k)
			continue
		}
		nm := k.v.Name()
		if t.sort == SSlice && SlOff(t) == IntT(0) && !x.dropped[x.loopKey(st.top(), ctx.header)+fmt.Sprintf("@%d", len(st.frames))+"/off0:"+x.cellID(st, k)] {
			a, l, c := Fresh(cellName(k)+"_arr", SRef), Fresh(cellName(k)+"_len", SInt), Fresh(cellName(k)+"_cap", SInt)
			n := MkSlice(a, IntT(0), l, c)
			st.cells[k] = n
			st.assume(Le(IntT(0), l))
			st.assume(Le(l, c))
			st.assume(Implies(Eq(a, Nil), Eq(c, IntT(0))))
			st.assume(Lt(Rid(a), counter(st)))
			continue
		}
		var ty types.Type
		if a, ok := k.v.(*ssa.Alloc); ok {
			nm = a.Comment
			ty = a.Type().Underlying().(*types.Pointer).Elem()
		}
		n := Fresh(nm, t.sort)
		st.cells[k] = n
		x.known(st, n, ty)
	}
	names := map[string]bool{}
	for c := range ws.refs {
		names[c] = true
	}
	for c := range ws.whole {
		names[c] = true
	}
	for _, cn := range sortedKeys(names) {
		c := comps[cn]
		old := x.heapGet(st, c)
		ctx.havocd[cn] = true
		if ws.whole[cn] {
			st.heap[cn] = x.freshHeap(st, c)
			continue
		}
		var rs []*Term
		fresh := false
		for r := range ws.refs[cn] {
			if r == freshMarker {
				fresh = true
			} else {
				rs = append(rs, r)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		h := old
		if fresh {
			h = x.freshHeap(st, c)
			q := FreshVar("r", heapKeySort(c))
			sel := mk("select", c.val, "", h, q)
			var ne []*Term
			for _, r := range rs {
				ne = append(ne, Not(Eq(q, r)))
			}
			ne = append(ne, Lt(keyID(q), before))
			st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Implies(And(ne...), Eq(sel, mk("select", c.val, "", old, q)))))
			st.heap[cn] = h
			continue
		}
		for _, r := range rs {
			v := Fresh("v_"+cn, c.val)
			x.known(st, v, nil)
			h = Store(h, r, v)
		}
		st.heap[cn] = h
	}
}

func cellName(k cellKey) string {
	if a, ok := k.v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	return k.v.Name()
}

func (x *Exec) cellID(st *State, k cellKey) string {
	return fmt.Sprintf("%d.%s.%s", k.frame-st.top().id, k.v.Name(), cellName(k))
}

// ---- calls and returns ----

func (x *Exec) ret(st *State, res []Val) []*State {
	f := st.top()
	if len(st.frames) == 1 {
		if len(st.loops) > 0 && st.loops[len(st.loops)-1].dry {
			return nil
		}
		if x.dry == 0 {
			x.finish(st, res)
		}
		return nil
	}
	// leaving a frame leaves its loops
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == f.id {
		if st.loops[len(st.loops)-1].dry {
			return nil
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		return f.onRet(st, res)
	}
	c := st.top()
	if f.ret != nil {
		if len(res) == 1 {
			c.regs[f.ret] = res[0]
		} else {
			c.regs[f.ret] = Tuple(res)
		}
	}
	c.pc++
	return []*State{st}
}

// raise: a panic propagates from the current point.
func (x *Exec) raise(st *State) []*State {
	for {
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			st.panicking = true
			st.recovered = false
			return x.callDeferred(st, d, func(s *State) []*State {
				if s.recovered {
					s.panicking, s.recovered = false, false
					g := s.top()
					if len(g.defers) > 0 {
						x.unsup("several deferred calls with recover")
					}
					for len(s.loops) > 0 && s.loops[len(s.loops)-1].frame == g.id {
						if s.loops[len(s.loops)-1].dry {
							return nil
						}
						s.loops = s.loops[:len(s.loops)-1]
					}
					if g.fn.Recover == nil {
						return x.ret(s, nil)
					}
					g.prev, g.blk, g.pc = nil, g.fn.Recover, 0
					return []*State{s}
				}
				return x.raise(s)
			})
		}
		if len(st.frames) == 1 {
			if len(st.loops) > 0 && st.loops[len(st.loops)-1].dry {
				return nil
			}
			if x.dry == 0 {
				x.finishPanic(st)
			}
			return nil
		}
		for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == f.id {
			if st.loops[len(st.loops)-1].dry {
				return nil
			}
			st.loops = st.loops[:len(st.loops)-1]
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
}

func (x *Exec) callDeferred(st *State, d Deferred, k func(*State) []*State) []*State {
	var fn *ssa.Function
	var bind []Val
	switch v := d.fn.(type) {
	case *Term:
		c := x.closures[v]
		if c == nil {
			x.unsup("deferred call of an unknown function")
		}
		fn, bind = c.fn, c.bind
	default:
		x.unsup("deferred call")
	}
	if fn.Blocks == nil {
		x.unsup("deferred call of %s", fn.Name())
	}
	nf := x.newFrame(st, fn, d.args, bind)
	nf.inDefer = true
	nf.onRet = func(s *State, res []Val) []*State { return k(s) }
	st.frames = append(st.frames, nf)
	return []*State{st}
}

func (x *Exec) newFrame(st *State, fn *ssa.Function, args, bind []Val) *Frame {
	st.nframe++
	f := &Frame{id: st.nframe, fn: fn, regs: map[ssa.Value]Val{}, names: map[string]ssa.Value{}, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = bind[i]
	}
	return f
}
