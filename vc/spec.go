package main

// Specification language: lexer, parser, AST.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Tok struct {
	kind string // id, int, str, op, eof
	s    string
	file string
	line int
}

func lexSpec(file, src string) []Tok {
	var toks []Tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "&&", "||", "==", "!=", "<=", ">=", "->"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			toks = append(toks, Tok{"str", src[i+1 : j], file, line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			toks = append(toks, Tok{"int", src[i:j], file, line})
			i = j
		case isIdStart(c):
			j := i + 1
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			toks = append(toks, Tok{"id", src[i:j], file, line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					toks = append(toks, Tok{"op", o, file, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				toks = append(toks, Tok{"op", string(c), file, line})
				i++
			}
		}
	}
	toks = append(toks, Tok{"eof", "", file, line})
	return toks
}

func isIdStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

// Expr is a specification expression.
type Expr struct {
	op    string // id, int, str, sel, index, call, un, bin, quant, old, let
	name  string
	args  []*Expr
	vars  []Param
	trigs [][]*Expr
	tok   Tok
	typ   *TExpr
}

type TExpr struct {
	kind string // name, ptr, set, map, slice, gomap
	name string
	a, b *TExpr
}

func (t *TExpr) String() string {
	switch t.kind {
	case "ptr":
		return "*" + t.a.String()
	case "set":
		return "set[" + t.a.String() + "]"
	case "gmap":
		return "gmap[" + t.a.String() + "]" + t.b.String()
	case "slice":
		return "[]" + t.a.String()
	case "map":
		return "map[" + t.a.String() + "]" + t.b.String()
	}
	return t.name
}

type Param struct {
	name string
	typ  *TExpr
}

type Clause struct {
	label string
	e     *Expr
	vars  []Param // metavariables of an inv
	props []string
	off   bool // belongs to another property than the one being checked
	pos   Tok
}

type ghostDecl struct {
	typ, field string
	t          *TExpr
	only       []*TExpr
}

type ModItem struct {
	typ   *TExpr // for maps / slices / cells
	tname string
	field string // "*" for all
	at    *Expr
	set   *Expr // condition over bound var
	bv    Param
	fresh bool
	tok   Tok
}

type GhostAssign struct {
	typ, field string
	ref        *Expr // single location
	bv         *Param
	cond       *Expr
	val        *Expr
	tok        Tok
}

type Contract struct {
	name      string
	params    []string
	results   []string
	props     []string
	requires  []*Clause
	ensures   []*Clause
	modifies  []*ModItem
	allocates []*TExpr
	maintains []string
	invs      []*Clause
	ghosts    []*GhostAssign
	panics    []*Clause // the function panics exactly when one holds
	mayPanic  bool      // recovered by callers only
	extern    bool
	trusted   bool
	pure      bool
	gen       *PredDef // elements left in a generator
	acc       *PredDef // values a predicate accepts
	once      bool     // the predicate accepts a value only once
	inline    bool // verify the body but inline at calls
	iface     bool
	mtags     [][]string // the properties the entries of maintains belong to
	hints     []*Clause
	perPath   bool
	lets      []*Clause
	decreases *Expr
	gparams   []Param
	uses      []string
	closures  []*ClosureSpec
	tok       Tok
	used      bool
	needsVars bool
	nosplit   bool
}

type ClosureSpec struct {
	result  int
	params  []string
	results []string
	req     []*Clause
	ens     []*Clause
	invs    []*Clause
	name    string
	tok     Tok
}

type PredDef struct {
	name   string
	params []Param
	body   *Expr
	tok    Tok
}
type FnDef struct {
	name   string
	params []*TExpr
	ret    *TExpr
}
type HeapInv struct {
	group, label string
	e            *Expr
	props        []string
}
type Axiom struct {
	name string
	e    *Expr
	lemma bool
}

// Lemma is a statement over specification functions, proved from the axioms (by induction on a measure if given).
type Lemma struct {
	name   string
	props  []string
	params []Param
	req    []*Clause
	ens    []*Clause
	hints  []*Clause
	uses   []string
	induct *Expr
	ih     [][]*Expr // explicit instances of the induction hypothesis
	tok    Tok
}

type Spec struct {
	lemmas    []*Lemma
	ghosts    []ghostDecl
	preds     map[string]*PredDef
	fns       map[string]*FnDef
	axioms    []*Axiom
	heapinvs  []*HeapInv
	contracts map[string]*Contract
	order     []string
	ident     []string
	groups    map[string][]string // group alias -> groups
	iterClasses map[string]*IterClass
	usesCount map[string]bool // contracts that count occurrences in slices
	callables bool
}

type parser struct {
	toks []Tok
	p    int
}

func (p *parser) peek() Tok  { return p.toks[p.p] }
func (p *parser) next() Tok  { t := p.toks[p.p]; p.p++; return t }
func (p *parser) at(s string) bool {
	t := p.peek()
	return t.s == s && (t.kind == "op" || t.kind == "id")
}
func (p *parser) accept(s string) bool {
	if p.at(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(msg string) {
	t := p.peek()
	panic(fmt.Sprintf("%s:%d: %s near %q", t.file, t.line, msg, t.s))
}
func (p *parser) expect(s string) Tok {
	if !p.at(s) {
		p.fail("expected " + s)
	}
	return p.next()
}
func (p *parser) id() string {
	t := p.next()
	if t.kind != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

func (p *parser) typ() *TExpr {
	if p.accept("*") {
		return &TExpr{kind: "ptr", a: p.typ()}
	}
	if p.accept("[") {
		p.expect("]")
		return &TExpr{kind: "slice", a: p.typ()}
	}
	n := p.id()
	switch n {
	case "set":
		p.expect("[")
		a := p.typ()
		p.expect("]")
		return &TExpr{kind: "set", a: a}
	case "gmap", "map":
		p.expect("[")
		a := p.typ()
		p.expect("]")
		return &TExpr{kind: n, a: a, b: p.typ()}
	case "struct":
		p.expect("{")
		p.expect("}")
		return &TExpr{kind: "name", name: "struct{}"}
	case "func":
		p.expect("(")
		p.expect(")")
		return &TExpr{kind: "name", name: "func()"}
	}
	for p.at(".") {
		p.next()
		n += "." + p.id()
	}
	return &TExpr{kind: "name", name: n}
}

func (p *parser) paramList() []Param {
	// x T, y T  or  x, y T
	var out []Param
	for {
		var names []string
		names = append(names, p.id())
		for p.accept(",") {
			names = append(names, p.id())
		}
		t := p.typ()
		for _, n := range names {
			out = append(out, Param{n, t})
		}
		if !p.accept(",") {
			return out
		}
	}
}

// precedence: <==> 1, ==> 2 (right), || 3, && 4, comparison 5, + - 6, * 7
func (p *parser) expr() *Expr { return p.iff() }

func bin(op string, t Tok, a, b *Expr) *Expr { return &Expr{op: "bin", name: op, args: []*Expr{a, b}, tok: t} }

func (p *parser) iff() *Expr {
	a := p.imp()
	for p.at("<==>") {
		t := p.next()
		a = bin("<==>", t, a, p.imp())
	}
	return a
}
func (p *parser) imp() *Expr {
	a := p.or()
	if p.at("==>") {
		t := p.next()
		return bin("==>", t, a, p.imp())
	}
	return a
}
func (p *parser) or() *Expr {
	a := p.and()
	for p.at("||") {
		t := p.next()
		a = bin("||", t, a, p.and())
	}
	return a
}
func (p *parser) and() *Expr {
	a := p.cmp()
	for p.at("&&") {
		t := p.next()
		a = bin("&&", t, a, p.cmp())
	}
	return a
}
func (p *parser) cmp() *Expr {
	a := p.sum()
	t := p.peek()
	switch {
	case t.kind == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">="):
		p.next()
		b := p.sum()
		e := bin(t.s, t, a, b)
		// chains: 0 <= i < n
		for {
			t2 := p.peek()
			if t2.kind == "op" && (t2.s == "<" || t2.s == "<=") {
				p.next()
				c := p.sum()
				e = bin("&&", t2, e, bin(t2.s, t2, b, c))
				b = c
				continue
			}
			return e
		}
	case t.kind == "id" && (t.s == "in" || t.s == "notin"):
		p.next()
		b := p.sum()
		e := bin("in", t, a, b)
		if t.s == "notin" {
			return &Expr{op: "un", name: "!", args: []*Expr{e}, tok: t}
		}
		return e
	}
	return a
}
func (p *parser) sum() *Expr {
	a := p.prod()
	for p.at("+") || p.at("-") {
		t := p.next()
		a = bin(t.s, t, a, p.prod())
	}
	return a
}
func (p *parser) prod() *Expr {
	a := p.unary()
	for p.at("*") {
		t := p.next()
		a = bin(t.s, t, a, p.unary())
	}
	return a
}
func (p *parser) unary() *Expr {
	t := p.peek()
	if t.kind == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Expr{op: "un", name: t.s, args: []*Expr{p.unary()}, tok: t}
	}
	if t.kind == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{op: "quant", name: t.s, tok: t}
		e.vars = p.paramList()
		p.expect("::")
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trigs = append(e.trigs, tr)
		}
		e.args = []*Expr{p.expr()}
		return e
	}
	if t.kind == "id" && t.s == "let" {
		p.next()
		n := p.id()
		p.expect(":=")
		v := p.expr()
		p.expect("::")
		b := p.expr()
		return &Expr{op: "let", name: n, args: []*Expr{v, b}, tok: t}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		t := p.peek()
		switch {
		case p.at("."):
			p.next()
			n := p.id()
			e = &Expr{op: "sel", name: n, args: []*Expr{e}, tok: t}
		case p.at("["):
			p.next()
			i := p.expr()
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}, tok: t}
		case p.at("(") && e.op == "id":
			p.next()
			c := &Expr{op: "call", name: e.name, tok: t}
			if e.name == "as" || e.name == "is" || e.name == "box" || e.name == "ref" || e.name == "implements" || e.name == "emptyset" || e.name == "boxset" || e.name == "tagof" || e.name == "constmap" {
				// first argument is a type
				c.typ = p.typ()
				if p.accept(",") {
					for {
						c.args = append(c.args, p.expr())
						if !p.accept(",") {
							break
						}
					}
				}
				p.expect(")")
				e = c
				continue
			}
			if !p.at(")") {
				for {
					c.args = append(c.args, p.expr())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t.kind == "int":
		return &Expr{op: "int", name: t.s, tok: t}
	case t.kind == "str":
		return &Expr{op: "str", name: t.s, tok: t}
	case t.kind == "id":
		return &Expr{op: "id", name: t.s, tok: t}
	case t.s == "(":
		e := p.expr()
		p.expect(")")
		return e
	}
	p.p--
	p.fail("expression expected")
	return nil
}

func (p *parser) label() string {
	// optional "name:"
	if p.peek().kind == "id" && p.toks[p.p+1].s == ":" && p.toks[p.p+1].kind == "op" {
		l := p.id()
		p.expect(":")
		return l
	}
	return ""
}

func (p *parser) propTags() []string {
	var out []string
	if p.at("[") && strings.HasPrefix(p.toks[p.p+1].s, "C") {
		p.next()
		for {
			out = append(out, p.id())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	return out
}

// A clause may be tagged with the properties it belongs to: requires [C04, C05] label: e;
func (p *parser) taggedClause() *Clause {
	tags := p.propTags()
	c := p.clause()
	c.props = tags
	return c
}

// project drops the clauses that are tagged with other properties than prop, so that the check of one property
// does not depend on what only concerns another.
func (s *Spec) project(prop string) {
	on := func(tags []string) bool { return len(tags) == 0 || hasStr(tags, prop) }
	keep := func(l []*Clause) (r []*Clause) {
		for _, c := range l {
			if on(c.props) {
				r = append(r, c)
			}
		}
		return
	}
	for _, c := range s.contracts {
		c.requires, c.ensures, c.hints = keep(c.requires), keep(c.ensures), keep(c.hints)
		var m []string
		for i, g := range c.maintains {
			if i >= len(c.mtags) || on(c.mtags[i]) {
				m = append(m, g)
			}
		}
		c.maintains, c.mtags = m, nil
		for _, v := range c.invs {
			v.off = !on(v.props)
		}
	}
}

func (p *parser) clause() *Clause {
	c := &Clause{pos: p.peek()}
	c.props = p.propTags()
	c.label = p.label()
	c.e = p.expr()
	p.expect(";")
	return c
}

func (p *parser) modItem() *ModItem {
	m := &ModItem{tok: p.peek()}
	if p.at("map") || p.at("[") {
		m.typ = p.typ()
	} else if p.accept("cell") {
		p.expect("[")
		m.typ = p.typ()
		p.expect("]")
		m.field = "cell"
	} else {
		m.tname = p.id()
		parts := []string{m.tname}
		for p.accept(".") {
			if p.accept("*") {
				parts = append(parts, "*")
			} else {
				parts = append(parts, p.id())
			}
		}
		m.field = parts[len(parts)-1]
		m.tname = strings.Join(parts[:len(parts)-1], ".")
	}
	if p.accept("@") {
		if p.accept("{") {
			m.bv.name = p.id()
			m.bv.typ = p.typ()
			p.expect("::")
			m.set = p.expr()
			p.expect("}")
		} else if p.at("fresh") {
			p.next()
			m.fresh = true
		} else {
			m.at = p.postfix()
		}
	}
	return m
}

func loadSpecs(dir string) *Spec {
	s := &Spec{preds: map[string]*PredDef{}, fns: map[string]*FnDef{}, contracts: map[string]*Contract{}, groups: map[string][]string{}, iterClasses: map[string]*IterClass{}, usesCount: map[string]bool{}, callables: true}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p := &parser{toks: lexSpec(filepath.Base(f), string(b))}
		for p.peek().kind != "eof" {
			s.item(p)
		}
	}
	for n, c := range s.contracts {
		for _, cl := range append(append(append([]*Clause(nil), c.requires...), c.ensures...), c.invs...) {
			if s.mentions(cl.e, "count", 0) {
				s.usesCount[n] = true
			}
		}
	}
	return s
}

func (s *Spec) mentions(e *Expr, fn string, depth int) bool {
	if e == nil || depth > 20 {
		return false
	}
	if e.op == "call" && e.name == fn {
		return true
	}
	if d := s.preds[e.name]; e.op == "call" && d != nil && s.mentions(d.body, fn, depth+1) {
		return true
	}
	for _, a := range e.args {
		if s.mentions(a, fn, depth) {
			return true
		}
	}
	return false
}

func (s *Spec) item(p *parser) {
	t := p.peek()
	switch p.id() {
	case "identity":
		for {
			s.ident = append(s.ident, p.id())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "ghost":
		tn := p.id()
		parts := []string{tn}
		for p.accept(".") {
			parts = append(parts, p.id())
		}
		f := parts[len(parts)-1]
		tn = strings.Join(parts[:len(parts)-1], ".")
		p.expect(":")
		ty := p.typ()
		var only []*TExpr // for ghost fields of maps: the types of map that have it
		if p.accept("for") {
			for only = append(only, p.typ()); p.accept(","); {
				only = append(only, p.typ())
			}
		}
		p.expect(";")
		s.ghosts = append(s.ghosts, ghostDecl{tn, f, ty, only})
	case "iterclass":
		s.iterClassItem(p, t)
	case "pred":
		d := &PredDef{name: p.id(), tok: t}
		p.expect("(")
		if !p.at(")") {
			d.params = p.paramList()
		}
		p.expect(")")
		p.expect(":=")
		d.body = p.expr()
		p.expect(";")
		s.preds[d.name] = d
	case "fn":
		d := &FnDef{name: p.id()}
		p.expect("(")
		for !p.at(")") {
			d.params = append(d.params, p.typ())
			p.accept(",")
		}
		p.expect(")")
		d.ret = p.typ()
		p.expect(";")
		s.fns[d.name] = d
	case "axiom":
		a := &Axiom{name: p.id()}
		p.expect(":")
		a.e = p.expr()
		p.expect(";")
		s.axioms = append(s.axioms, a)
	case "group":
		n := p.id()
		p.expect(":=")
		for {
			s.groups[n] = append(s.groups[n], p.id())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "heapinv":
		h := &HeapInv{}
		h.props = p.propTags()
		h.group = p.id()
		p.expect(".")
		h.label = p.id()
		p.expect(":")
		h.e = p.expr()
		p.expect(";")
		s.heapinvs = append(s.heapinvs, h)
	case "lemma":
		l := &Lemma{tok: t, name: p.id()}
		p.expect("(")
		if !p.at(")") {
			l.params = p.paramList()
		}
		p.expect(")")
		p.expect("{")
		for !p.accept("}") {
			switch p.id() {
			case "props":
				for {
					l.props = append(l.props, p.id())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case "requires":
				l.req = append(l.req, p.clause())
			case "ensures":
				l.ens = append(l.ens, p.clause())
			case "hint":
				l.hints = append(l.hints, p.clause())
			case "uses":
				for {
					l.uses = append(l.uses, p.id())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case "induct":
				l.induct = p.expr()
				p.expect(";")
			case "ih":
				p.expect("(")
				var es []*Expr
				for !p.accept(")") {
					es = append(es, p.expr())
					p.accept(",")
				}
				p.expect(";")
				l.ih = append(l.ih, es)
			default:
				p.p--
				p.fail("unknown lemma clause")
			}
		}
		s.lemmas = append(s.lemmas, l)
	case "contract", "extern", "iface":
		c := &Contract{tok: t}
		c.extern = t.s == "extern"
		c.iface = t.s == "iface"
		n := p.id()
		for p.accept(".") {
			n += "." + p.id()
		}
		c.name = n
		p.expect("(")
		for !p.at(")") {
			c.params = append(c.params, p.id())
			p.accept(",")
		}
		p.expect(")")
		if p.accept("(") {
			for !p.at(")") {
				c.results = append(c.results, p.id())
				p.accept(",")
			}
			p.expect(")")
		}
		p.expect("{")
		for !p.accept("}") {
			s.contractClause(p, c)
		}
		if _, dup := s.contracts[n]; dup {
			panic(fmt.Sprintf("%s:%d: duplicate contract %s", t.file, t.line, n))
		}
		s.closureClauses(c)
		s.contracts[n] = c
		s.order = append(s.order, n)
	default:
		p.p--
		p.fail("unknown item")
	}
}

// closureClauses adds the obligations of a closure that is used as a generator or a predicate.
func (s *Spec) closureClauses(c *Contract) {
	if c.gen == nil && c.acc == nil {
		return
	}
	add := func(text string) {
		q := &parser{toks: lexSpec(c.tok.file, text)}
		for i := range q.toks {
			q.toks[i].line = c.tok.line
		}
		for q.peek().kind != "eof" {
			s.contractClause(q, c)
		}
	}
	c.ensures = append(c.ensures, c.requires...)
	if c.gen != nil {
		g := c.gen.name
		add("ensures gen: r == nil ==> forall v any :: old(" + g + "(v)) == 0 && " + g + "(v) == 0;")
		add("ensures gen: r != nil ==> !r.$on && forall v any :: " + g + "(v) + r.$todo[v] == old(" + g + "(v));")
		return
	}
	g, a := c.acc.name, c.params[0]
	add("ensures acc: r <==> old(" + g + "(" + a + "));")
	if c.once {
		add("ensures acc: forall v any :: " + g + "(v) <==> old(" + g + "(v)) && v != " + a + ";")
	} else {
		add("ensures acc: forall v any :: " + g + "(v) <==> old(" + g + "(v));")
	}
}

func (s *Spec) contractClause(p *parser, c *Contract) {
	t := p.peek()
	switch p.id() {
	case "props":
		for {
			c.props = append(c.props, p.id())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "requires":
		c.requires = append(c.requires, p.taggedClause())
	case "ensures":
		c.ensures = append(c.ensures, p.taggedClause())
	case "let":
		cl := &Clause{pos: t}
		cl.label = p.id()
		p.expect(":=")
		cl.e = p.expr()
		p.expect(";")
		c.lets = append(c.lets, cl)
	case "hint":
		c.hints = append(c.hints, p.taggedClause())
	case "panics":
		p.accept("when")
		c.panics = append(c.panics, p.clause())
	case "paths":
		// loop effects are worked out separately for every path that reaches the loop
		c.perPath = true
		p.expect(";")
	case "maypanic":
		c.mayPanic = true
		p.expect(";")
	case "trusted":
		c.trusted = true
		p.expect(";")
	case "pure":
		c.pure = true
		p.expect(";")
	case "gen", "acc":
		if t.s == "acc" && p.accept("once") {
			c.once = true
		}
		d := &PredDef{params: []Param{{p.id(), &TExpr{kind: "name", name: "any"}}}, tok: t}
		p.expect(":")
		d.body = p.expr()
		p.expect(";")
		d.name = "$" + t.s + "_" + strings.NewReplacer(".", "_", "$", "_").Replace(c.name)
		s.preds[d.name] = d
		if t.s == "gen" {
			c.gen = d
		} else {
			c.acc = d
		}
	case "inline":
		c.inline = true
		p.expect(";")
	case "uses":
		for {
			c.uses = append(c.uses, p.id())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "ghostparam":
		c.gparams = append(c.gparams, p.paramList()...)
		p.expect(";")
	case "modifies":
		for {
			c.modifies = append(c.modifies, p.modItem())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "allocates":
		for {
			c.allocates = append(c.allocates, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "maintains":
		tags := p.propTags()
		for {
			g := p.id()
			c.maintains = append(c.maintains, g)
			c.mtags = append(c.mtags, tags)
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "inv":
		cl := &Clause{pos: p.peek(), props: p.propTags()}
		if p.accept("any") {
			p.expect("(")
			cl.vars = p.paramList()
			p.expect(")")
			p.expect(":")
		} else {
			cl.label = p.label()
		}
		cl.e = p.expr()
		p.expect(";")
		c.invs = append(c.invs, cl)
	case "set":
		// set T.$f@ref := e;   set T.$f@{x T :: cond} := e;
		g := &GhostAssign{tok: t}
		m := p.modItem()
		g.typ, g.field = m.tname, m.field
		g.ref = m.at
		if m.set != nil {
			bv := m.bv
			g.bv = &bv
			g.cond = m.set
		}
		p.expect(":=")
		g.val = p.expr()
		p.expect(";")
		c.ghosts = append(c.ghosts, g)
	default:
		p.p--
		p.fail("unknown clause")
	}
}
