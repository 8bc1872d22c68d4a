package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SRef   Sort = "Ref"
	SIface Sort = "Iface"
	SFunc  Sort = "Func"
	SFlt   Sort = "Flt"
	SSlice Sort = "Slice"
	SReal  Sort = "Real"
)

func ArrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)" into K and V.
func arrParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort: " + s)
}

type Term struct {
	op    string // "const" (free constant), "var" (bound), "int", "true", "false", or a function / operator name
	args  []*Term
	sort  Sort
	name  string // for const/var/int literal
	id    int
	bound []*Term   // for forall/exists
	pats  [][]*Term // triggers
	hasBV bool      // contains bound variables
	stamp int       // creation order of fresh constants
}

var termTab = map[string]*Term{}
var termCount int

func mk(op string, sort Sort, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, args: args, sort: sort, name: name, id: termCount}
	if op == "var" {
		t.hasBV = true
	}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	termTab[k] = t
	return t
}

var (
	True  = mk("true", SBool, "")
	False = mk("false", SBool, "")
)

func Const(name string, s Sort) *Term { return mk("const", s, name) }
func BVar(name string, s Sort) *Term  { return mk("var", s, name) }
func IntT(n int64) *Term              { return mk("int", SInt, fmt.Sprint(n)) }
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshCount = map[string]int{}

func Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	freshCount[prefix]++
	t := Const(fmt.Sprintf("%s!%d", prefix, freshCount[prefix]), s)
	stampCount++
	t.stamp = stampCount
	return t
}

var stampCount int

func FreshVar(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	freshCount[prefix]++
	return BVar(fmt.Sprintf("%s?%d", prefix, freshCount[prefix]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '?':
			sb.WriteRune(c)
		case c == '*':
			sb.WriteString("p.")
		case c == '$':
			sb.WriteString("S.")
		default:
			sb.WriteByte('_')
		}
	}
	r := sb.String()
	if r == "" || (r[0] >= '0' && r[0] <= '9') {
		r = "v" + r
	}
	return r
}

// App applies an uninterpreted or builtin function without simplification.
func App(fn string, s Sort, args ...*Term) *Term { return mk(fn, s, "", args...) }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", SBool, "", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", out...)
}

func Or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		ns[i] = t
	}
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ns {
		if t == True {
			return True
		}
		if t == False {
			continue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, t := range out {
		if seen[Not(t).id] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, "", a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch: %s (%s) vs %s (%s)", a, a.sort, b, b.sort))
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	return mk("ite", a.sort, "", c, a, b)
}

// distinctT reports that two terms are syntactically known to differ.
func distinctT(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "int" && b.op == "int" {
		return a.name != b.name
	}
	if a.op == "strlit" && b.op == "strlit" {
		return a.name != b.name
	}
	if a.op == "new" && b.op == "new" {
		// fresh objects: base counter + offset
		return a.args[0] == b.args[0] && a.name != b.name
	}
	if a.op == "nil" && (b.op == "new" || strings.HasPrefix(b.op, "sub_") || b.op == "elem") {
		return true
	}
	if b.op == "nil" && (a.op == "new" || strings.HasPrefix(a.op, "sub_") || a.op == "elem") {
		return true
	}
	if isSub(a) && isSub(b) {
		if a.op != b.op {
			return true
		}
		if a.op == "elem" {
			return distinctT(a.args[0], b.args[0]) || distinctT(a.args[1], b.args[1])
		}
		return distinctT(a.args[0], b.args[0])
	}
	if isSub(a) && b.op == "new" || isSub(b) && a.op == "new" {
		return true
	}
	if strings.HasPrefix(a.op, "box_") && strings.HasPrefix(b.op, "box_") {
		if a.op != b.op {
			return true
		}
		return distinctT(a.args[0], b.args[0])
	}
	if a.op == "inil" && strings.HasPrefix(b.op, "box_") || b.op == "inil" && strings.HasPrefix(a.op, "box_") {
		return true
	}
	if strings.HasPrefix(a.op, "mk_") && a.op == b.op {
		for i := range a.args {
			if distinctT(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	// x vs x + k
	if a.sort == SInt && b.sort == SInt {
		xa, ka := splitAdd(a)
		xb, kb := splitAdd(b)
		if xa == xb && ka.Cmp(kb) != 0 {
			return true
		}
	}
	return false
}

func isSub(a *Term) bool { return strings.HasPrefix(a.op, "sub_") || a.op == "elem" }

func splitAdd(a *Term) (*Term, *big.Int) {
	if a.op == "int" {
		n := new(big.Int)
		n.SetString(a.name, 10)
		return nil, n
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].op == "int" {
		n := new(big.Int)
		n.SetString(a.args[1].name, 10)
		return a.args[0], n
	}
	return a, big.NewInt(0)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s : %s vs %s : %s", a, a.sort, b, b.sort))
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if distinctT(a, b) {
		return False
	}
	if strings.HasPrefix(a.op, "box_") && a.op == b.op {
		return Eq(a.args[0], b.args[0])
	}
	if strings.HasPrefix(a.op, "mk_") && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", a, b)
}

func Add(a, b *Term) *Term {
	xa, ka := splitAdd(a)
	xb, kb := splitAdd(b)
	k := new(big.Int).Add(ka, kb)
	kt := mk("int", SInt, k.String())
	switch {
	case xa == nil && xb == nil:
		return kt
	case xa == nil:
		if k.Sign() == 0 {
			return xb
		}
		return mk("+", SInt, "", xb, kt)
	case xb == nil:
		if k.Sign() == 0 {
			return xa
		}
		return mk("+", SInt, "", xa, kt)
	}
	s := mk("+", SInt, "", xa, xb)
	if xb.op == "int" { // cannot happen
		return s
	}
	// keep x+y as a non-constant sum: wrap so that splitAdd does not misread it
	if k.Sign() == 0 {
		return s
	}
	return mk("+", SInt, "", s, kt)
}

func Neg(a *Term) *Term {
	if a.op == "int" {
		n := new(big.Int)
		n.SetString(a.name, 10)
		return mk("int", SInt, n.Neg(n).String())
	}
	if a.op == "neg" {
		return a.args[0]
	}
	return mk("neg", SInt, "", a)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return IntT(0)
	}
	if b.op == "int" {
		return Add(a, Neg(b))
	}
	xa, ka := splitAdd(a)
	xb, kb := splitAdd(b)
	if xa == xb && xa != nil {
		return mk("int", SInt, new(big.Int).Sub(ka, kb).String())
	}
	return mk("-", SInt, "", a, b)
}

func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		x, y := new(big.Int), new(big.Int)
		x.SetString(a.name, 10)
		y.SetString(b.name, 10)
		return mk("int", SInt, x.Mul(x, y).String())
	}
	return mk("*", SInt, "", a, b)
}

func Lt(a, b *Term) *Term {
	if a.sort == SInt {
		xa, ka := splitAdd(a)
		xb, kb := splitAdd(b)
		if xa == xb {
			return BoolT(ka.Cmp(kb) < 0)
		}
	}
	return mk("<", SBool, "", a, b)
}
func Le(a, b *Term) *Term {
	if a.sort == SInt {
		xa, ka := splitAdd(a)
		xb, kb := splitAdd(b)
		if xa == xb {
			return BoolT(ka.Cmp(kb) <= 0)
		}
	}
	return mk("<=", SBool, "", a, b)
}

func Select(a, i *Term) *Term {
	_, v := arrParts(a.sort)
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctT(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr") {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	return mk("select", v, "", a, i)
}

// At reads element i of a slice with content a and offset off.
func At(a, off, i *Term) *Term {
	ix := Add(off, i)
	if off.op == "int" {
		return Select(a, ix)
	}
	for a.op == "store" {
		if a.args[1] == ix {
			return a.args[2]
		}
		if !distinctT(a.args[1], ix) {
			break
		}
		a = a.args[0]
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	_, v := arrParts(a.sort)
	return mk("at_"+sanitize(v), v, "", a, off, i)
}

func Store(a, i, v *Term) *Term {
	k, vs := arrParts(a.sort)
	if i.sort != k || v.sort != vs {
		panic(fmt.Sprintf("store sort mismatch: %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, "", a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, "", v) }

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return quant("forall", vars, pats, body)
}
func Exists(vars []*Term, pats [][]*Term, body *Term) *Term {
	return quant("exists", vars, pats, body)
}
func quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	fv := freeBV(body)
	var used []*Term
	for _, v := range vars {
		if fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if len(used) != len(vars) {
		vars = used
	}
	// bound variables get names that depend only on the nesting, so that formulas that differ in them only are the same term
	h := qHeight(body)
	ren := map[*Term]*Term{}
	nv := make([]*Term, len(vars))
	for i, v := range vars {
		nv[i] = BVar(fmt.Sprintf("b%d_%d?%s", h, i, sanitize(v.sort)), v.sort)
		if nv[i] != v {
			ren[v] = nv[i]
		}
	}
	if len(ren) > 0 {
		body = Subst(body, ren)
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, x := range p {
				q = append(q, Subst(x, ren))
			}
			np = append(np, q)
		}
		pats, vars = np, nv
		if body == True || body == False {
			return body
		}
		fv = freeBV(body)
	}
	var sb strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&sb, "%d,", v.id)
	}
	for _, p := range pats {
		sb.WriteByte(';')
		for _, x := range p {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
	}
	t := mk(q, SBool, sb.String(), body)
	t.bound = vars
	t.pats = pats
	// recompute hasBV: free variables only
	t.hasBV = false
	for v := range fv {
		isB := false
		for _, b := range vars {
			if b == v {
				isB = true
			}
		}
		if !isB {
			t.hasBV = true
		}
	}
	return t
}

var qhCache = map[*Term]int{}

// qHeight is the nesting depth of quantifiers in a term.
func qHeight(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if h, ok := qhCache[t]; ok {
		return h
	}
	h := 0
	for _, a := range t.args {
		if x := qHeight(a); x > h {
			h = x
		}
	}
	if t.op == "forall" || t.op == "exists" {
		h++
	}
	qhCache[t] = h
	return h
}

var fbvCache = map[*Term]map[*Term]bool{}

func freeBV(t *Term) map[*Term]bool {
	if !t.hasBV {
		return nil
	}
	if m, ok := fbvCache[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	if t.op == "var" {
		m[t] = true
	} else {
		for _, a := range t.args {
			for v := range freeBV(a) {
				m[v] = true
			}
		}
		for _, b := range t.bound {
			delete(m, b)
		}
	}
	fbvCache[t] = m
	return m
}

// Subst replaces terms by terms (constants or bound variables), rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if t.op == "forall" || t.op == "exists" {
				var pats [][]*Term
				for _, p := range t.pats {
					var np []*Term
					for _, x := range p {
						np = append(np, rec(x))
					}
					pats = append(pats, np)
				}
				r = quant(t.op, t.bound, pats, args[0])
			} else {
				r = rebuild(t, args)
			}
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "neg":
		return Neg(args[0])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	if strings.HasPrefix(t.op, "at_") {
		return At(args[0], args[1], args[2])
	}
	if strings.HasPrefix(t.op, "sel_") {
		return selField(t.op, t.sort, args[0])
	}
	return mk(t.op, t.sort, t.name, args...)
}

// ---- struct datatypes ----

type DTField struct {
	name string // selector
	sort Sort
}
type DType struct {
	sort   Sort
	ctor   string
	fields []DTField
}

var dtypes = map[Sort]*DType{
	SSlice: {sort: SSlice, ctor: "mk_Slice", fields: []DTField{{"sel_Slice_arr", SRef}, {"sel_Slice_off", SInt}, {"sel_Slice_len", SInt}, {"sel_Slice_cap", SInt}}},
}
var dtOrder = []Sort{SSlice}

func regDT(sort Sort, fields []DTField) *DType {
	if d, ok := dtypes[sort]; ok {
		return d
	}
	d := &DType{sort: sort, ctor: "mk_" + sort, fields: fields}
	dtypes[sort] = d
	dtOrder = append(dtOrder, sort)
	return d
}

func mkDT(sort Sort, args ...*Term) *Term {
	d := dtypes[sort]
	if len(args) != len(d.fields) {
		panic("mkDT arity " + sort)
	}
	for i, a := range args {
		if a.sort != d.fields[i].sort {
			panic(fmt.Sprintf("mkDT %s field %s: %s", sort, d.fields[i].name, a.sort))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && strings.HasPrefix(args[0].op, "sel_") && args[0].op == d.fields[0].name {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != d.fields[i].name || a.args[0] != x {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return mk(d.ctor, sort, "", args...)
}

func selField(sel string, s Sort, t *Term) *Term {
	d := dtypes[t.sort]
	if t.op == d.ctor {
		for i, f := range d.fields {
			if f.name == sel {
				return t.args[i]
			}
		}
	}
	if t.op == "ite" && (t.args[1].op == d.ctor || t.args[2].op == d.ctor) {
		return Ite(t.args[0], selField(sel, s, t.args[1]), selField(sel, s, t.args[2]))
	}
	return mk(sel, s, "", t)
}

func selIdx(t *Term, i int) *Term {
	d := dtypes[t.sort]
	if d == nil {
		panic("selIdx on " + t.sort)
	}
	return selField(d.fields[i].name, d.fields[i].sort, t)
}

func SlArr(t *Term) *Term { return selIdx(t, 0) }
func SlOff(t *Term) *Term { return selIdx(t, 1) }
func SlLen(t *Term) *Term { return selIdx(t, 2) }
func SlCap(t *Term) *Term { return selIdx(t, 3) }
func MkSlice(arr, off, l, c *Term) *Term {
	return mkDT(SSlice, arr, off, l, c)
}

// ---- refs, interfaces, strings ----

var Nil = mk("nil", SRef, "")
var INil = mk("inil", SIface, "")
var FNil = mk("fnil", SFunc, "")
var NilSlice = MkSlice(Nil, IntT(0), IntT(0), IntT(0))

// New is the k-th object allocated after the symbolic counter base.
func New(base *Term, k int) *Term { return mk("new", SRef, fmt.Sprint(k), base) }

var subFns = map[string]int{} // sub_ function -> tag

func SubAddr(fn string, r *Term) *Term {
	fn = "sub_" + sanitize(fn)
	if _, ok := subFns[fn]; !ok {
		subFns[fn] = len(subFns) + 2
	}
	return mk(fn, SRef, "", r)
}
func ElemAddr(r, i *Term) *Term { return mk("elem", SRef, "", r, i) }

// Rid is the allocation number of the object a reference lies in.
func Rid(r *Term) *Term {
	switch {
	case r.op == "new":
		var k int64
		fmt.Sscan(r.name, &k)
		return Add(r.args[0], IntT(k))
	case isSub(r):
		return Rid(r.args[0])
	case r.op == "nil":
		return IntT(-1)
	}
	return mk("rid", SInt, "", r)
}

type boxInfo struct {
	tag  int
	sort Sort
	desc string
}

var boxTypes = map[string]*boxInfo{} // type key -> info
var boxOrder []string

func boxKey(key string, s Sort) *boxInfo {
	b, ok := boxTypes[key]
	if !ok {
		b = &boxInfo{tag: len(boxTypes) + 1, sort: s, desc: key}
		boxTypes[key] = b
		boxOrder = append(boxOrder, key)
	}
	return b
}

func Box(key string, v *Term) *Term {
	boxKey(key, v.sort)
	if v.op == "unbox_"+key {
		// box(unbox(i)) is only i when the dynamic type matches; keep it explicit
	}
	return mk("box_"+key, SIface, "", v)
}
func Unbox(key string, s Sort, i *Term) *Term {
	boxKey(key, s)
	if i.op == "box_"+key {
		return i.args[0]
	}
	if i.op == "ite" {
		return Ite(i.args[0], Unbox(key, s, i.args[1]), Unbox(key, s, i.args[2]))
	}
	return mk("unbox_"+key, s, "", i)
}
func TypIs(key string, s Sort, i *Term) *Term {
	b := boxKey(key, s)
	if strings.HasPrefix(i.op, "box_") {
		return BoolT(i.op == "box_"+key)
	}
	if i == INil {
		return False
	}
	if i.op == "ite" {
		return Ite(i.args[0], TypIs(key, s, i.args[1]), TypIs(key, s, i.args[2]))
	}
	return Eq(mk("typ", SInt, "", i), IntT(int64(b.tag)))
}

func TypOf(i *Term) *Term {
	if strings.HasPrefix(i.op, "box_") {
		return IntT(int64(boxTypes[i.op[4:]].tag))
	}
	if i == INil {
		return IntT(0)
	}
	return mk("typ", SInt, "", i)
}

func StrLit(s string) *Term { return mk("strlit", SStr, s) }

// ---- printing ----

func (t *Term) String() string { return t.smt() }

func (t *Term) smt() string { return t.smtNamed(nil) }

func (t *Term) smtNamed(named map[*Term]string) string {
	var sb strings.Builder
	t.write(&sb, named)
	return sb.String()
}

func strConst(s string) string {
	var sb strings.Builder
	sb.WriteString("str_")
	for _, b := range []byte(s) {
		if b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' {
			sb.WriteByte(b)
		} else {
			fmt.Fprintf(&sb, "_%02x", b)
		}
	}
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, named map[*Term]string) {
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	switch t.op {
	case "const", "var":
		sb.WriteString(t.name)
		return
	case "int":
		if t.name[0] == '-' {
			sb.WriteString("(- " + t.name[1:] + ")")
		} else {
			sb.WriteString(t.name)
		}
		return
	case "strlit":
		sb.WriteString(strConst(t.name))
		return
	case "new":
		sb.WriteString("(newobj ")
		Add(t.args[0], func() *Term { var k int64; fmt.Sscan(t.name, &k); return IntT(k) }()).write(sb, named)
		sb.WriteString(")")
		return
	case "true", "false":
		sb.WriteString(t.op)
		return
	case "nil":
		sb.WriteString("nilref")
		return
	case "constarr":
		if n := constArrName(t); n != "" {
			sb.WriteString(n)
			return
		}
		sb.WriteString("((as const " + t.sort + ") ")
		t.args[0].write(sb, named)
		sb.WriteString(")")
		return
	case "neg":
		sb.WriteString("(- ")
		t.args[0].write(sb, named)
		sb.WriteString(")")
		return
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for i, v := range t.bound {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString("(" + v.name + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb, named)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteString(" ")
				}
				x.write(sb, patNamed)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" ")
		a.write(sb, named)
	}
	sb.WriteString(")")
}

// patNamed names closed subterms of patterns that contain operators patterns may not contain (set while a script is written).
var patNamed map[*Term]string

func unmatchable(t *Term) bool {
	switch t.op {
	case "ite", "store", "forall", "exists", "and", "or", "not", "=>", "=", "<", "<=", "constarr":
		return true
	}
	for _, a := range t.args {
		if unmatchable(a) {
			return true
		}
	}
	return false
}

func notePattern(t *Term) {
	if !t.hasBV {
		if unmatchable(t) {
			patNamed[t] = fmt.Sprintf("pn_%d", t.id)
		}
		return
	}
	for _, a := range t.args {
		notePattern(a)
	}
}

// constArrName: constant arrays of values that are not literals are named symbols with an axiom.
func constArrName(t *Term) string {
	switch t.args[0].op {
	case "true", "false", "int":
		return ""
	}
	return "zarr_" + sanitize(t.sort)
}

// subterms visits every distinct subterm once.
func subterms(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
