package main

// Verification of one function against its contract.

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type FnResult struct {
	name     string
	fn       *ssa.Function
	con      *Contract
	obls     []*Obl
	failed   []*Obl
	problem  string // the function is outside the supported subset, or a specification does not evaluate
	missing  bool
	inlined  []string
	called   []string
	assumed  []string
	dropped  []string
	kept     int
	paths    int
	rounds   int
	vacuous  bool
	secs     float64
}

func (r *FnResult) ok() bool { return r.problem == "" && len(r.failed) == 0 && !r.vacuous }

func loadRepo(dir string) error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return err
	}
	if len(pkgs) != 1 {
		return fmt.Errorf("%d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return fmt.Errorf("%v", pkgs[0].Errors[0])
	}
	var sp []*ssa.Package
	prog, sp = ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	mainSSA = sp[0]
	mainPkg = pkgs[0].Types
	return nil
}

var fnIndex map[string]*ssa.Function

func indexFns() {
	fnIndex = map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == mainSSA && fn.Synthetic == "" && fn.Blocks != nil {
			fnIndex[contractName(fn)] = fn
		}
	}
	for _, m := range mainSSA.Members {
		if f, ok := m.(*ssa.Function); ok && f.Blocks != nil {
			fnIndex[contractName(f)] = f
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && f.Blocks != nil && f.Pkg == mainSSA {
						fnIndex[contractName(f)] = f
					}
				}
			}
		}
	}
}

// setupSpec resolves ghost declarations, identity types, wrappers and axioms.
func setupSpec(spec *Spec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	for _, n := range spec.ident {
		identityTypes[n] = true
	}
	for _, g := range spec.ghosts {
		if g.typ != "Generator" && g.typ != "Predicate" && g.typ != "AnyMap" && lookupType(g.typ) == nil {
			fmt.Fprintf(os.Stderr, "note: ghost field on unknown type %s\n", g.typ)
			continue
		}
		if ghostFields[g.typ] == nil {
			ghostFields[g.typ] = map[string]*GhostField{}
		}
		ghostFields[g.typ][g.field] = &GhostField{g.typ, g.field, spec.resolveType(g.t), nil}
		for _, o := range g.only {
			ghostFields[g.typ][g.field].only = append(ghostFields[g.typ][g.field].only, spec.resolveType(o).gt.Underlying())
		}
	}
	for _, n := range mainPkg.Scope().Names() {
		tn, ok := mainPkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if s, ok := tn.Type().Underlying().(*types.Struct); ok && s.NumFields() == 1 && s.Field(0).Embedded() && types.IsInterface(s.Field(0).Type()) {
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				k := boxName(t)
				wrapperTypes[k] = true
				boxKey(k, sortOf(t))
			}
		}
	}
	x := &Exec{spec: spec, entry: map[string]*Term{}, alloc0: Const("alloc!axiom", SInt)}
	for _, a := range spec.axioms {
		env := &Env{x: x, vars: map[string]TV{}, heap: func(c *Comp) *Term { panic(evalErr{"axiom " + a.name + " reads the heap"}) }}
		t := env.boolean(a.e)
		at := axiomTerm{name: a.name, t: t}
		subterms([]*Term{t}, func(u *Term) {
			if strings.HasPrefix(u.op, "u_") {
				at.syms = append(at.syms, u.op)
			}
		})
		axiomTerms = append(axiomTerms, at)
	}
	return nil
}

func newExec(spec *Spec, fn *ssa.Function, con *Contract, dropped map[string]bool) *Exec {
	freshCount = map[string]int{}
	nBases = 0
	x := &Exec{spec: spec, fn: fn, con: con, dropped: dropped, entry: map[string]*Term{}, closures: map[*Term]*Closure{}, loopMemo: map[string]*WriteSet{},
		inlined: map[string]bool{}, called: map[string]bool{}, assumed: map[string]bool{}, entryVars: map[string]TV{}, name: con.name}
	return x
}

// symbolic runs the function once and collects its obligations.
func (x *Exec) symbolic() (problem string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				problem = "outside the supported subset: " + e.msg
			case evalErr:
				problem = "specification: " + e.msg
			default:
				if os.Getenv("VC_DEBUG") != "" {
					panic(r)
				}
				problem = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	x.alloc0 = newBase()
	st := &State{heap: map[string]*Term{}, cells: map[cellKey]Val{}, gvars: map[string]TV{}, base: x.alloc0}
	st.assume(Lt(IntT(0), x.alloc0))
	var args []Val
	for i, p := range x.fn.Params {
		nm := x.con.params[i]
		t := Const("p_"+sanitize(nm), sortOf(p.Type()))
		if identityTypes[typeName(p.Type())] && isStruct(p.Type()) {
			// a copy of the content of an object
			self := Const("p_"+sanitize(nm)+"_self", SRef)
			st.assume(Not(Eq(self, Nil)))
			x.known(st, self, nil)
			t = loadStruct(x.entryFn(), self, p.Type())
		}
		x.known(st, t, p.Type())
		args = append(args, t)
		x.entryVars[nm] = TV{t: t, ty: goTy(p.Type())}
		if i == 0 && x.fn.Signature.Recv() != nil {
			if _, isP := p.Type().Underlying().(*types.Pointer); isP && !strings.HasPrefix(x.con.name, "!") {
				_ = isP
			}
		}
	}
	for _, gp := range x.con.gparams {
		ty := x.spec.resolveType(gp.typ)
		x.entryVars[gp.name] = TV{t: Const("g_"+sanitize(gp.name), ty.sort()), ty: ty}
	}
	x.entryVars["$counter0"] = TV{t: x.alloc0, ty: tyInt}
	x.params = args
	x.bindFreeVars(st)
	env := &Env{x: x, vars: x.entryVars, heap: x.entryFn(), old: x.entryFn(), st: st}
	if len(x.fn.FreeVars) > 0 {
		env.lookup = x.fvLookup(x.entryFn(), x.entryFn(), x.fn, x.fvBind)
	}
	for _, l := range x.con.lets {
		x.entryVars[l.label] = env.eval(l.e)
	}
	for _, p := range x.con.panics {
		x.entryPanics = append(x.entryPanics, env.boolean(p.e))
	}
	for _, r := range x.con.requires {
		st.assume(env.boolean(r.e))
	}
	for _, h := range x.heapinvs(x.con.maintains) {
		st.assume(env.boolean(h.e))
	}
	for _, u := range x.con.uses {
		found := u == "cards"
		for _, l := range x.spec.lemmas {
			if l.name == u {
				st.assume(lemmaTerm(x.spec, l, nil))
				found = true
			}
		}
		if !found {
			panic(evalErr{"unknown lemma " + u})
		}
	}
	if st.infeasible() {
		return "contradictory precondition"
	}
	x.entrySt = st.clone()
	f := x.newFrame(st, x.fn, args, x.fvBind)
	st.frames = append(st.frames, f)
	x.run(st)
	return ""
}

type verifyOpts struct {
	ms       int
	candMs   int
	par      int
	backends []int
	verbose  bool
}

// hints lists, per function, the loop invariant candidates that were dropped when its proof was last worked out; starting
// from there saves rounds. Dropping a candidate is always sound, and a proof that fails with hints is redone without them.
type fnHint struct {
	Hash    string   `json:"hash"`
	Dropped []string `json:"dropped"`
}

var hints map[string]fnHint

func loadHints() {
	hints = map[string]fnHint{}
	if b, err := os.ReadFile(verifDir() + "/hints.json"); err == nil {
		_ = json.Unmarshal(b, &hints)
	}
}

func fnHash(fn *ssa.Function) string {
	var b bytes.Buffer
	fn.WriteTo(&b)
	for _, a := range fn.AnonFuncs {
		a.WriteTo(&b)
	}
	h := sha256.New()
	for _, l := range strings.Split(b.String(), "\n") {
		if !strings.HasPrefix(l, "#") {
			h.Write([]byte(l + "\n"))
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}

func verifyFn(spec *Spec, con *Contract, opt verifyOpts) *FnResult {
	fn := fnIndex[con.name]
	if h, ok := hints[con.name]; ok && fn != nil && h.Hash == fnHash(fn) && len(h.Dropped) > 0 {
		r := verifyFn1(spec, con, opt, h.Dropped)
		if r.ok() {
			return r
		}
	}
	return verifyFn1(spec, con, opt, nil)
}

func verifyFn1(spec *Spec, con *Contract, opt verifyOpts, drop []string) *FnResult {
	t0 := time.Now()
	res := &FnResult{name: con.name, con: con}
	defer func() { res.secs = time.Since(t0).Seconds() }()
	fn := fnIndex[con.name]
	if fn == nil {
		res.missing = true
		return res
	}
	res.fn = fn
	if len(con.params) != len(fn.Params) {
		res.missing = true
		return res
	}
	dropped := map[string]bool{}
	for _, d := range drop {
		dropped[d] = true
	}
	var x *Exec
	for res.rounds = 1; res.rounds <= 12; res.rounds++ {
		x = newExec(spec, fn, con, dropped)
		if p := x.symbolic(); p != "" {
			res.problem = p
			return res
		}
		var cands []*Obl
		for _, o := range x.obls {
			if o.cand != "" {
				cands = append(cands, o)
			}
		}
		solveAll(spec, cands, solveOpts{opt.candMs, opt.backends[:2]}, opt.par)
		n := 0
		for _, o := range cands {
			if o.status != "unsat" && o.status != "trivial" && !dropped[o.cand] {
				dropped[o.cand] = true
				n++
				if opt.verbose {
					fmt.Printf("  [round %d] drop %s (%s) at %s\n", res.rounds, o.cand, o.label, o.pos)
					keepScript(o, "cand")
				}
			}
		}
		if n == 0 {
			break
		}
	}
	// a short pass, then a long one on what is left
	solveAll(spec, x.obls, solveOpts{opt.candMs, opt.backends[:2]}, opt.par)
	var again []*Obl
	for _, o := range x.obls {
		if o.status != "unsat" && o.status != "trivial" && len(again) < 16 {
			o.status, o.output = "", ""
			again = append(again, o)
		}
	}
	solveAll(spec, again, solveOpts{opt.ms, opt.backends}, opt.par)
	res.obls = x.obls
	for _, o := range x.obls {
		if o.status != "unsat" && o.status != "trivial" {
			res.failed = append(res.failed, o)
		}
	}
	res.paths = x.pathN
	res.inlined, res.called, res.assumed, res.dropped = sortedKeys(x.inlined), sortedKeys(x.called), sortedKeys(x.assumed), sortedKeys(dropped)
	// vacuity: some return must be reachable
	if len(x.retCover) == 0 && len(con.panics) == 0 {
		res.vacuous = true
		res.problem = "no path returns"
	} else if len(x.retCover) > 0 {
		ok := false
		// the last ones first: they follow loops and calls; one reachable return suffices
		for i := len(x.retCover) - 1; i >= 0 && !ok; i-- {
			c := *x.retCover[i]
			solve(spec, &c, solveOpts{1500, []int{0}})
			if c.status != "unsat" {
				ok = true
			}
		}
		if !ok {
			res.vacuous = true
		}
	}
	return res
}

// lemmaTerm is the universally quantified statement of a lemma.
func lemmaTerm(spec *Spec, l *Lemma, guard func(vars map[string]TV) *Term) *Term {
	x := &Exec{spec: spec, entry: map[string]*Term{}, alloc0: Const("alloc!axiom", SInt)}
	vars := map[string]TV{}
	var bvs []*Term
	for _, p := range l.params {
		ty := spec.resolveType(p.typ)
		v := FreshVar("L"+p.name, ty.sort())
		vars[p.name] = TV{t: v, ty: ty}
		bvs = append(bvs, v)
	}
	return Forall(bvs, nil, lemmaInst(x, l, vars, guard))
}

// lemmaInst is the statement of a lemma for given arguments.
func lemmaInst(x *Exec, l *Lemma, vars map[string]TV, guard func(vars map[string]TV) *Term) *Term {
	env := &Env{x: x, vars: vars, heap: func(c *Comp) *Term { panic(evalErr{"lemma " + l.name + " reads the heap"}) }}
	var req, ens []*Term
	if guard != nil {
		req = append(req, guard(vars))
	}
	for _, r := range l.req {
		req = append(req, env.boolean(r.e))
	}
	for _, r := range l.ens {
		ens = append(ens, env.boolean(r.e))
	}
	return Implies(And(req...), And(ens...))
}

func verifyLemma(spec *Spec, l *Lemma, opt verifyOpts) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{name: "lemma " + l.name, con: &Contract{name: "lemma " + l.name, props: l.props}, rounds: 1, paths: 1}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				res.problem = e.msg
				return
			}
			panic(r)
		}
		res.secs = time.Since(t0).Seconds()
	}()
	freshCount = map[string]int{}
	x := &Exec{spec: spec, entry: map[string]*Term{}, alloc0: Const("alloc!axiom", SInt)}
	vars := map[string]TV{}
	for _, p := range l.params {
		ty := spec.resolveType(p.typ)
		vars[p.name] = TV{t: Const("l_"+p.name, ty.sort()), ty: ty}
	}
	env := &Env{x: x, vars: vars, heap: func(c *Comp) *Term { panic(evalErr{"lemma " + l.name + " reads the heap"}) }}
	var as []*Term
	for _, u := range l.uses {
		found := false
		for _, m := range spec.lemmas {
			if m == l {
				break // only earlier lemmas
			}
			if m.name == u {
				as = append(as, lemmaTerm(spec, m, nil))
				found = true
			}
		}
		if !found {
			panic(evalErr{"lemma " + l.name + " uses unknown " + u})
		}
	}
	if l.induct != nil {
		m0 := env.val(env.eval(l.induct))
		guard := func(v map[string]TV) *Term {
			e2 := &Env{x: x, vars: v, heap: env.heap}
			m := e2.val(e2.eval(l.induct))
			return And(Le(IntT(0), m), Lt(m, m0))
		}
		if l.ih == nil {
			as = append(as, lemmaTerm(spec, l, guard))
		}
		for _, inst := range l.ih {
			v := map[string]TV{}
			for i, p := range l.params {
				tv := env.eval(inst[i])
				v[p.name] = TV{t: env.val(tv), ty: spec.resolveType(p.typ)}
			}
			as = append(as, lemmaInst(x, l, v, guard))
		}
	}
	for _, r := range l.req {
		as = append(as, env.boolean(r.e))
	}
	for _, h := range l.hints {
		g := env.boolean(h.e)
		res.obls = append(res.obls, &Obl{fn: res.name, label: "hint " + h.label, cards: true, goal: g, assume: append([]*Term(nil), as...)})
		as = append(as, g)
	}
	for i, e := range l.ens {
		lb := e.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		res.obls = append(res.obls, &Obl{fn: res.name, label: "ensures " + lb, cards: true, goal: env.boolean(e.e), assume: append([]*Term(nil), as...)})
	}
	solveAll(spec, res.obls, solveOpts{opt.ms, opt.backends}, opt.par)
	for _, o := range res.obls {
		if o.status != "unsat" && o.status != "trivial" {
			res.failed = append(res.failed, o)
		}
	}
	c := &Obl{fn: res.name, goal: False, assume: as}
	solve(spec, c, solveOpts{1500, []int{0}})
	if c.status == "unsat" {
		res.vacuous = true
	}
	return res
}

// keepScript copies the script of an obligation for inspection.
func keepScript(o *Obl, what string) {
	d := os.Getenv("VC_KEEP")
	if d == "" || o.script == "" {
		return
	}
	_ = os.MkdirAll(d, 0o755)
	if b, err := os.ReadFile(o.script); err == nil {
		keptN++
		f := fmt.Sprintf("%s/%s-%d.smt2", d, what, keptN)
		_ = os.WriteFile(f, b, 0o644)
		fmt.Printf("     script %s\n", f)
	}
}

var keptN int
