package main

// SMT scripts for obligations, and the solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type declared struct {
	sorts  map[Sort]bool
	lines  []string
	consts map[string]bool
	fns    map[string]bool
}

func sortNames(s Sort, f func(Sort)) {
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrParts(s)
		sortNames(k, f)
		sortNames(v, f)
		return
	}
	f(s)
}

var builtinOps = map[string]bool{
	"const": true, "var": true, "int": true, "true": true, "false": true, "not": true, "and": true, "or": true, "=>": true, "=": true,
	"ite": true, "+": true, "-": true, "neg": true, "*": true, "<": true, "<=": true, "select": true, "store": true, "constarr": true,
	"forall": true, "exists": true, "real": true, "to_real": true,
}

var bagSort = ArrSort(SIface, SInt)
var setAnySort = ArrSort(SIface, SBool)

// axiomFor gives the background axioms of a symbol; they may mention other symbols.
type symInfo struct {
	args []Sort
	ret  Sort
}

// script builds the SMT-LIB text of an obligation: assumptions and the negated goal.
func script(spec *Spec, o *Obl, slim bool) string {
	ts := append(append([]*Term(nil), o.assume...), Not(o.goal))
	if slim {
		ts = append(slimAssume(o), Not(o.goal))
	}
	syms := map[string]symInfo{}
	consts := map[string]Sort{}
	lits := map[string]*Term{}
	zarrs := map[string]*Term{}
	sorts := map[Sort]bool{}
	var noteSort func(s Sort)
	noteSort = func(s Sort) {
		sortNames(s, func(n Sort) {
			if sorts[n] {
				return
			}
			sorts[n] = true
			if d, ok := dtypes[n]; ok {
				for _, f := range d.fields {
					noteSort(f.sort)
				}
			}
		})
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		noteSort(t.sort)
		switch t.op {
		case "const":
			consts[t.name] = t.sort
		case "strlit":
			lits[t.name] = t
		case "constarr":
			if n := constArrName(t); n != "" {
				zarrs[n] = t
			}
		case "new":
			syms["newobj"] = symInfo{[]Sort{SInt}, SRef}
		case "nil", "inil", "fnil":
			syms[t.op] = symInfo{nil, t.sort}
		default:
			if !builtinOps[t.op] {
				if d, ok := dtypes[t.sort]; ok && d.ctor == t.op {
					break
				}
				if strings.HasPrefix(t.op, "sel_") {
					break
				}
				syms[t.op] = symInfo{mapSorts(t.args), t.sort}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, b := range t.bound {
			noteSort(b.sort)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
	}
	for _, t := range ts {
		visit(t)
	}
	patNamed = map[*Term]string{}
	var axioms []string
	// user axioms
	usedAx := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, a := range axiomTerms {
			if usedAx[a.name] {
				continue
			}
			rel := false
			for _, f := range a.syms {
				if _, ok := syms[f]; ok {
					rel = true
				}
			}
			if len(a.syms) == 0 {
				rel = true
			}
			if rel {
				usedAx[a.name] = true
				visit(a.t)
				axioms = append(axioms, a.t.smt())
				ch = true
			}
		}
	}
	need := func(n string, args []Sort, ret Sort) {
		if _, ok := syms[n]; !ok {
			syms[n] = symInfo{args, ret}
		}
	}
	sorts[SRef], sorts[SIface], sorts[SFunc], sorts[SStr] = true, true, true, true
	for changed := true; changed; {
		changed = false
		n0 := len(syms)
		for _, s := range sortedKeys(syms) {
			switch {
			case s == "nil" || s == "newobj" || strings.HasPrefix(s, "sub_") || s == "elem":
				need("rid", []Sort{SRef}, SInt)
				need("rtag", []Sort{SRef}, SInt)
				need("nil", nil, SRef)
				if s != "nil" && s != "newobj" {
					need("parent", []Sort{SRef}, SRef)
				}
				if s == "elem" {
					need("eidx", []Sort{SRef}, SInt)
				}
			case strings.HasPrefix(s, "box_") || strings.HasPrefix(s, "unbox_"):
				k := s[strings.Index(s, "_")+1:]
				b := boxTypes[k]
				need("box_"+k, []Sort{b.sort}, SIface)
				need("unbox_"+k, []Sort{SIface}, b.sort)
				need("typ", []Sort{SIface}, SInt)
			case s == "typ":
				need("inil", nil, SIface)
			case s == "hashable":
				need("typ", []Sort{SIface}, SInt)
				need("inil", nil, SIface)
			case s == "ibase":
				need("typ", []Sort{SIface}, SInt)
				need("pbase", []Sort{SIface}, SIface)
				for k := range wrapperTypes {
					if b := boxTypes[k]; b != nil {
						need("unbox_"+k, []Sort{SIface}, b.sort)
						noteSort(b.sort)
					}
				}
			case s == "irid":
				need("rid", []Sort{SRef}, SInt)
				need("nil", nil, SRef)
			case s == "bsize":
				need("bsw", []Sort{bagSort, bagSort}, SIface)
				need("bsw3", []Sort{bagSort, bagSort, bagSort}, SIface)
				need("bsws", []Sort{bagSort, setAnySort}, SIface)
				need("card_Iface", []Sort{setAnySort}, SInt)
			case s == "isum":
				need("ibase", []Sort{SIface}, SIface)
				need("at_Iface", []Sort{ArrSort(SInt, SIface), SInt, SInt}, SIface)
			case strings.HasPrefix(s, "cnt_"):
				_, e := arrParts(syms[s].args[0])
				need("cntw_"+s[4:], syms[s].args, SInt)
				need("at_"+sanitize(e), []Sort{syms[s].args[0], SInt, SInt}, e)
			case strings.HasPrefix(s, "boxset_"):
				k := s[7:]
				b := boxTypes[k]
				need("box_"+k, []Sort{b.sort}, SIface)
				need("unbox_"+k, []Sort{SIface}, b.sort)
				need("typ", []Sort{SIface}, SInt)
				need("card_Iface", []Sort{setAnySort}, SInt)
				need("card_"+sanitize(b.sort), []Sort{ArrSort(b.sort, SBool)}, SInt)
			case strings.HasPrefix(s, "cardo_"):
				need("card_"+s[6:], []Sort{syms[s].args[0]}, SInt)
			case strings.HasPrefix(s, "card_"):
				k, _ := arrParts(syms[s].args[0])
				sfx := s[5:]
				need("cardw_"+sfx, syms[s].args, k)
				need("cardd_"+sfx, []Sort{syms[s].args[0], syms[s].args[0]}, k)
			}
		}
		if len(lits) > 0 {
			need("srank", []Sort{SStr}, SReal)
		}
		if len(syms) != n0 {
			changed = true
		}
	}
	for _, s := range consts {
		if s == ArrSort(SRef, SSlice) || strings.HasPrefix(s, "(Array Ref (Array ") {
			need("nil", nil, SRef)
		}
	}
	if _, ok := syms["srank"]; ok {
		lits[""] = StrLit("")
	}
	var sb strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&sb, f+"\n", a...) }
	w("(set-option :auto_config false)")
	w("(set-option :smt.mbqi false)")
	w("(set-logic ALL)")
	for _, n := range sortedKeys(sorts) {
		switch n {
		case SInt, SBool, SReal:
			continue
		}
		if _, ok := dtypes[n]; ok {
			continue
		}
		w("(declare-sort %s 0)", n)
	}
	emitted := map[Sort]bool{}
	var emitDT func(n Sort)
	emitDT = func(n Sort) {
		d := dtypes[n]
		if d == nil || emitted[n] {
			return
		}
		emitted[n] = true
		for _, f := range d.fields {
			sortNames(f.sort, emitDT)
		}
		if len(d.fields) == 0 {
			w("(declare-datatypes ((%s 0)) (((%s))))", n, d.ctor)
			return
		}
		fs := ""
		for _, f := range d.fields {
			fs += fmt.Sprintf(" (%s %s)", f.name, f.sort)
		}
		w("(declare-datatypes ((%s 0)) (((%s%s))))", n, d.ctor, fs)
	}
	for _, n := range sortedKeys(sorts) {
		emitDT(n)
	}
	for _, n := range sortedKeys(syms) {
		i := syms[n]
		nm := n
		if n == "nil" {
			nm = "nilref"
		}
		w("(declare-fun %s (%s) %s)", nm, strings.Join(i.args, " "), i.ret)
	}
	for _, n := range sortedKeys(consts) {
		w("(declare-fun %s () %s)", n, consts[n])
	}
	var ls []string
	for l := range lits {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for i, l := range ls {
		w("(declare-fun %s () Str)", strConst(l))
		w("(assert (= (srank %s) %d.0))", strConst(l), i)
	}
	a := func(f string, as ...any) { w("(assert "+f+")", as...) }
	for _, n := range sortedKeys(zarrs) {
		t := zarrs[n]
		k, _ := arrParts(t.sort)
		w("(declare-fun %s () %s)", n, t.sort)
		a("(forall ((k %s)) (! (= (select %s k) %s) :pattern ((select %s k))))", k, n, t.args[0].smt(), n)
	}
	if _, ok := syms["srank"]; ok {
		a("(forall ((s Str)) (! (>= (srank s) 0.0) :pattern ((srank s))))")
		a("(forall ((s Str) (t Str)) (! (=> (= (srank s) (srank t)) (= s t)) :pattern ((srank s) (srank t))))")
		need("strof", nil, SStr)
	}
	if _, ok := syms["rid"]; ok {
		if _, ok := syms["nil"]; ok {
			a("(= (rid nilref) (- 1))")
			if _, ok := syms["rtag"]; ok {
				a("(= (rtag nilref) 0)")
			}
		}
	}
	if _, ok := syms["newobj"]; ok {
		a("(forall ((n Int)) (! (and (= (rid (newobj n)) n) (= (rtag (newobj n)) 1)) :pattern ((newobj n))))")
	}
	for _, s := range sortedKeys(syms) {
		switch {
		case strings.HasPrefix(s, "sub_"):
			a("(forall ((r Ref)) (! (and (= (parent (%s r)) r) (= (rid (%s r)) (rid r)) (= (rtag (%s r)) %d)) :pattern ((%s r))))", s, s, s, subFns[s], s)
		case s == "elem":
			a("(forall ((r Ref) (i Int)) (! (and (= (parent (elem r i)) r) (= (eidx (elem r i)) i) (= (rid (elem r i)) (rid r)) (= (rtag (elem r i)) 1000)) :pattern ((elem r i))))")
		case strings.HasPrefix(s, "boxset_"):
			k := s[7:]
			b := boxTypes[k]
			as := ArrSort(b.sort, SBool)
			a("(forall ((s %s) (v Iface)) (! (= (select (%s s) v) (and (= (typ v) %d) (select s (unbox_%s v)))) :pattern ((select (%s s) v))))", as, s, b.tag, k, s)
			a("(forall ((s %s)) (! (= (card_Iface (%s s)) (card_%s s)) :pattern ((%s s))))", as, s, sanitize(b.sort), s)
		case strings.HasPrefix(s, "box_"):
			k := s[4:]
			b := boxTypes[k]
			a("(forall ((v %s)) (! (and (= (unbox_%s (box_%s v)) v) (= (typ (box_%s v)) %d)) :pattern ((box_%s v))))", b.sort, k, k, k, b.tag, k)
			a("(forall ((i Iface)) (! (=> (= (typ i) %d) (= (box_%s (unbox_%s i)) i)) :pattern ((unbox_%s i))))", b.tag, k, k, k)
		case strings.HasPrefix(s, "at_"):
			as := syms[s].args[0]
			a("(forall ((h %s) (o Int) (i Int)) (! (= (%s h o i) (select h (+ o i))) :pattern ((%s h o i))))", as, s, s)
		case s == "typ":
			a("(= (typ inil) 0)")
			a("(forall ((i Iface)) (! (=> (= (typ i) 0) (= i inil)) :pattern ((typ i))))")
		case s == "ibase":
			a("(forall ((i Iface)) (! (= (ibase (ibase i)) (ibase i)) :pattern ((ibase (ibase i)))))")
			var not []string
			for _, k := range sortedKeys(wrapperTypes) {
				b := boxTypes[k]
				if b == nil {
					continue
				}
				if b.sort == SRef {
					not = append(not, fmt.Sprintf("(= (typ i) %d)", b.tag))
					a("(forall ((i Iface)) (! (=> (= (typ i) %d) (= (ibase i) (pbase i))) :pattern ((ibase i))))", b.tag)
					continue
				}
				not = append(not, fmt.Sprintf("(= (typ i) %d)", b.tag))
				d := dtypes[b.sort]
				a("(forall ((i Iface)) (! (=> (= (typ i) %d) (= (ibase i) (ibase (%s (unbox_%s i))))) :pattern ((ibase i))))", b.tag, d.fields[0].name, k)
			}
			if len(not) == 0 {
				a("(forall ((i Iface)) (! (= (ibase i) i) :pattern ((ibase i))))")
			} else {
				a("(forall ((i Iface)) (! (or (= (ibase i) i) %s) :pattern ((ibase i))))", strings.Join(not, " "))
			}
		case s == "irid":
			for _, n := range sortedKeys(syms) {
				if strings.HasPrefix(n, "box_") && !wrapperTypes[n[4:]] {
					b := boxTypes[n[4:]]
					if b.sort == SRef {
						a("(forall ((v Ref)) (! (= (irid (%s v)) (rid v)) :pattern ((%s v))))", n, n)
					} else {
						a("(forall ((v %s)) (! (= (irid (%s v)) (- 1)) :pattern ((irid (%s v)))))", b.sort, n, n)
					}
				}
			}
		case s == "bsize":
			a("(forall ((b %s)) (! (>= (bsize b) 0) :pattern ((bsize b))))", bagSort)
			a("(forall ((b %s) (c %s)) (! (or (<= (bsize b) (bsize c)) (> (select b (bsw b c)) (select c (bsw b c)))) :pattern ((bsize b) (bsize c))))", bagSort, bagSort)
			a("(forall ((b %s) (s %s)) (! (or (<= (bsize b) (card_Iface s)) (> (select b (bsws b s)) (ite (select s (bsws b s)) 1 0))) :pattern ((bsize b) (card_Iface s))))", bagSort, setAnySort)
			a("(forall ((b %s) (c %s) (d %s)) (! (or (<= (bsize b) (+ (bsize c) (bsize d))) (> (select b (bsw3 b c d)) (+ (select c (bsw3 b c d)) (select d (bsw3 b c d))))) :pattern ((bsize b) (bsize c) (bsize d))))", bagSort, bagSort, bagSort)
		case s == "isum":
			td := syms[s].args[0]
			el := syms[s].args[1]
			a("(forall ((t %s) (e %s) (o Int) (n Int) (v Iface)) (! (=> (<= n 0) (= (isum t e o n v) 0)) :pattern ((isum t e o n v))))", td, el)
			a("(forall ((t %s) (e %s) (o Int) (n Int) (v Iface)) (! (=> (> n 0) (= (isum t e o n v) (+ (select (select t (ibase (at_Iface e o 0))) v) (isum t e (+ o 1) (- n 1) v)))) :pattern ((isum t e o n v) (at_Iface e o 0))))", td, el)
			a("(forall ((t %s) (e %s) (o Int) (v Iface)) (! (= (isum t e o 1 v) (select (select t (ibase (select e o))) v)) :pattern ((isum t e o 1 v))))", td, el)
			a("(forall ((t %s) (e %s) (o Int) (v Iface)) (! (= (isum t e o 2 v) (+ (select (select t (ibase (select e o))) v) (select (select t (ibase (select e (+ o 1)))) v))) :pattern ((isum t e o 2 v))))", td, el)
			a("(forall ((t %s) (e %s) (o Int) (n Int) (v Iface)) (! (=> (forall ((i Iface) (w Iface)) (>= (select (select t i) w) 0)) (>= (isum t e o n v) 0)) :pattern ((isum t e o n v))))", td, el)
		case strings.HasPrefix(s, "cnt_"):
			h := syms[s].args[0]
			_, e := arrParts(h)
			at, wf := "at_"+sanitize(e), "cntw_"+s[4:]
			hd := fmt.Sprintf("(h %s) (o Int) (n Int) (v %s)", h, e)
			a("(forall (%s) (! (and (>= (%s h o n v) 0) (=> (<= n 0) (= (%s h o n v) 0))) :pattern ((%s h o n v))))", hd, s, s, s)
			a("(forall (%s) (! (=> (>= (%s h o n v) 1) (and (<= 0 (%s h o n v)) (< (%s h o n v) n) (= (%s h o (%s h o n v)) v))) :pattern ((%s h o n v))))", hd, s, wf, wf, at, wf, s)
			a("(forall (%s) (! (=> (> n 0) (= (%s h o n v) (+ (ite (= (%s h o 0) v) 1 0) (%s h (+ o 1) (- n 1) v)))) :pattern ((%s h o n v) (%s h o 0))))", hd, s, at, s, s, at)
			a("(forall (%s (i Int)) (! (=> (and (<= 0 i) (< i n) (= (%s h o i) v)) (>= (%s h o n v) 1)) :pattern ((%s h o n v) (%s h o i))))", hd, at, s, s, at)
			a("(forall (%s (i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j n) (= (%s h o i) v) (= (%s h o j) v)) (>= (%s h o n v) 2)) :pattern ((%s h o n v) (%s h o i) (%s h o j))))", hd, at, at, s, s, at, at)
			// slices that start at offset 0 are read with select
			a("(forall ((h %s) (n Int) (v %s) (i Int)) (! (=> (and (<= 0 i) (< i n) (= (select h i) v)) (>= (%s h 0 n v) 1)) :pattern ((%s h 0 n v) (select h i))))", h, e, s, s)
			a("(forall ((h %s) (n Int) (v %s) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j n) (= (select h i) v) (= (select h j) v)) (>= (%s h 0 n v) 2)) :pattern ((%s h 0 n v) (select h i) (select h j))))", h, e, s, s)
		case strings.HasPrefix(s, "card_"):
			as := syms[s].args[0]
			k, _ := arrParts(as)
			f := s[5:]
			a("(= (card_%s ((as const %s) false)) 0)", f, as)
			a("(forall ((s %s)) (! (and (>= (card_%s s) 0) (or (= (card_%s s) 0) (select s (cardw_%s s)))) :pattern ((card_%s s))))", as, f, f, f, f)
			a("(forall ((s %s) (k %s)) (! (=> (select s k) (>= (card_%s s) 1)) :pattern ((card_%s s) (select s k))))", as, k, f, f)
			a("(forall ((s %s) (k %s)) (! (= (card_%s (store s k true)) (+ (card_%s s) (ite (select s k) 0 1))) :pattern ((card_%s (store s k true)))))", as, k, f, f, f)
			a("(forall ((s %s) (k %s)) (! (= (card_%s (store s k false)) (- (card_%s s) (ite (select s k) 1 0))) :pattern ((card_%s (store s k false)))))", as, k, f, f, f)
			a("(forall ((s %s) (k %s)) (! (=> (and (select s k) (<= (card_%s s) 1)) (= k (cardw_%s s))) :pattern ((card_%s s) (select s k))))", as, k, f, f, f)
			if _, ok := syms["cardo_"+f]; ok {
				a("(forall ((s %s) (x %s)) (! (=> (>= (card_%s s) 2) (and (select s (cardo_%s s x)) (not (= x (cardo_%s s x))))) :pattern ((cardo_%s s x))))", as, k, f, f, f, f)
				a("(forall ((s %s) (x %s) (k %s)) (! (=> (and (select s x) (select s k) (<= (card_%s s) 2)) (or (= k x) (= k (cardo_%s s x)))) :pattern ((cardo_%s s x) (select s k))))", as, k, k, f, f, f)
			}
			if o.cards {
				a("(forall ((s %s) (t %s)) (! (or (= s t) (< (card_%s s) (card_%s t)) (and (select s (cardd_%s s t)) (not (select t (cardd_%s s t))))) :pattern ((card_%s s) (card_%s t))))", as, as, f, f, f, f, f, f)
			}
		case s == "hashable":
			a("(hashable inil)")
			for _, k := range boxOrder {
				bt := boxGoType(k)
				if bt == nil {
					continue
				}
				if h := hashableType(bt); h != 0 {
					a("(forall ((v Iface)) (! (=> (= (typ v) %d) (= (hashable v) %v)) :pattern ((hashable v))))", boxTypes[k].tag, h == 1)
				}
			}
		case strings.HasPrefix(s, "impl_"):
			it := implIfaces[s]
			for _, k := range boxOrder {
				if bt := boxGoType(k); bt != nil && it != nil {
					a("(= (%s %d) %v)", s, boxTypes[k].tag, types.Implements(bt, it))
				}
			}
			a("(= (%s 0) false)", s)
		}
	}
	for _, n := range sortedKeys(consts) {
		if strings.HasPrefix(n, "glob_") {
			a("(and (< (rid %s) 0) (not (= %s nilref)))", n, n)
		}
	}
	for _, n := range sortedKeys(consts) {
		if consts[n] == ArrSort(SRef, SSlice) {
			// slices in memory are well formed
			a("(forall ((r Ref)) (! (and (<= 0 (sel_Slice_off (select %s r))) (<= 0 (sel_Slice_len (select %s r))) (<= (sel_Slice_len (select %s r)) (sel_Slice_cap (select %s r))) (=> (= (sel_Slice_arr (select %s r)) nilref) (= (sel_Slice_cap (select %s r)) 0))) :pattern ((select %s r))))", n, n, n, n, n, n, n)
		}
	}
	for _, n := range sortedKeys(consts) {
		if strings.HasPrefix(n, "h_MD_") && strings.HasPrefix(consts[n], "(Array Ref (Array ") {
			// the nil map is empty
			_, in := arrParts(consts[n])
			kx, _ := arrParts(in)
			a("(forall ((k %s)) (! (not (select (select %s nilref) k)) :pattern ((select (select %s nilref) k))))", kx, n, n)
		}
	}
	for _, n := range sortedKeys(consts) {
		switch {
		case (strings.HasPrefix(n, "h_I_Iterator.") && strings.Contains(n, "todo") || strings.HasPrefix(n, "h_K_Generator.")) && strings.HasSuffix(consts[n], bagSort+")"):
			k, _ := arrParts(consts[n])
			a("(forall ((i %s) (v Iface)) (! (>= (select (select %s i) v) 0) :pattern ((select (select %s i) v))))", k, n, n)
		case consts[n] == bagSort:
			a("(forall ((v Iface)) (! (>= (select %s v) 0) :pattern ((select %s v))))", n, n)
		}
	}
	for _, x := range axioms {
		a("%s", x)
	}
	// shared closed subterms are named to keep the text small
	named := map[*Term]string{}
	count := map[*Term]int{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, x := range t.args {
			cnt(x)
		}
		for _, p := range t.pats {
			for _, x := range p {
				cnt(x)
			}
		}
	}
	for _, t := range ts {
		cnt(t)
	}
	patNamed = map[*Term]string{}
	subterms(ts, func(t *Term) {
		for _, p := range t.pats {
			for _, x := range p {
				notePattern(x)
			}
		}
	})
	done := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, x := range t.args {
			def(x)
		}
		for _, p := range t.pats {
			for _, x := range p {
				def(x)
			}
		}
		if count[t] > 1 && !t.hasBV && len(t.args) > 0 && t.op != "neg" && t.op != "new" && t.op != "not" {
			n := fmt.Sprintf("t_%d", t.id)
			w("(define-fun %s () %s %s)", n, t.sort, t.smtNamed(named))
			named[t] = n
		}
	}
	for _, t := range ts {
		def(t)
	}
	var pns []*Term
	for t := range patNamed {
		pns = append(pns, t)
	}
	sort.Slice(pns, func(i, j int) bool { return pns[i].id < pns[j].id })
	for _, t := range pns {
		w("(declare-fun %s () %s)", patNamed[t], t.sort)
		w("(assert (= %s %s))", patNamed[t], t.smtNamed(named))
	}
	for _, t := range ts {
		w("(assert %s)", t.smtNamed(named))
	}
	w("(check-sat)")
	return sb.String()
}

type axiomTerm struct {
	name string
	t    *Term
	syms []string
}

var axiomTerms []axiomTerm

var solverMu, termMu sync.Mutex
var solverSecs = map[string]float64{}
var solverCount = map[string]int{}

type backend struct {
	name string
	args func(file string, ms int) []string
}

var backends = []backend{
	{"z3-new", func(f string, ms int) []string { return []string{"z3-new", "-smt2", fmt.Sprintf("-t:%d", ms), f} }},
	{"z3", func(f string, ms int) []string { return []string{"z3", "-smt2", fmt.Sprintf("-t:%d", ms), f} }},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
}

func runBackend(b backend, file string, ms int) (string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+ms/4+200)*time.Millisecond)
	defer cancel()
	args := b.args(file, ms)
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	solverMu.Lock()
	solverSecs[b.name] += d
	solverCount[b.name]++
	solverMu.Unlock()
	return strings.TrimSpace(out.String()), d
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			return l
		}
	}
	return "error"
}

var solveCache = map[string]string{} // script hash -> status|backend
var scratch string

type solveOpts struct {
	ms       int
	backends []int
}

// solve discharges one obligation.
// heapBase: the name of a heap constant without its version
func heapBase(t *Term) string {
	if t.op == "const" && (strings.HasPrefix(t.name, "h_") || strings.HasPrefix(t.name, "v_")) {
		if i := strings.LastIndexByte(t.name, '!'); i > 0 {
			return t.name[2:i]
		}
	}
	return ""
}

// slimAssume leaves out assumptions about pairs of objects whose triggers read fields the goal does not mention
// (fewer assumptions: anything proved remains proved).
func slimAssume(o *Obl) []*Term {
	goal := map[string]bool{}
	subterms([]*Term{o.goal}, func(t *Term) {
		if b := heapBase(t); b != "" {
			goal[b] = true
		}
	})
	var out []*Term
	frame := strings.HasPrefix(o.label, "modifies only") || strings.Contains(o.label, "only declared memory changed")
	for _, t := range o.assume {
		if frame && t.op == "forall" {
			// what is left unchanged follows from what is said about the same component
			keep := false
			for _, p := range t.pats {
				subterms(p, func(x *Term) {
					keep = keep || goal[heapBase(x)]
				})
			}
			if !keep {
				continue
			}
		}
		if t.op == "forall" && len(t.pats) > 0 && len(t.bound) >= 2 {
			keep := false
			for _, p := range t.pats {
				if len(p) < 2 {
					keep = true
					break
				}
				all := true
				subterms(p, func(x *Term) {
					if b := heapBase(x); b != "" && !goal[b] {
						all = false
					}
				})
				if all {
					keep = true
					break
				}
			}
			if !keep {
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

func solve(spec *Spec, o *Obl, opt solveOpts) {
	if o.status != "" {
		return
	}
	if o.goal == True {
		o.status = "trivial"
		return
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		o.status, o.output = "unknown", "time budget exhausted"
		return
	}
	termMu.Lock()
	sc := script(spec, o, false)
	sl := ""
	if len(opt.backends) > 1 && opt.ms > 1500 && len(slimAssume(o)) < len(o.assume) {
		sl = script(spec, o, true)
	}
	termMu.Unlock()
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(sc)))
	solverMu.Lock()
	if c, ok := solveCache[h]; ok {
		p := strings.SplitN(c, "|", 2)
		o.status, o.backend = p[0], p[1]
		solverMu.Unlock()
		return
	}
	solverMu.Unlock()
	file := filepath.Join(scratch, h[:24]+".smt2")
	if err := os.WriteFile(file, []byte(sc), 0o644); err != nil {
		o.status, o.output = "unknown", err.Error()
		return
	}
	o.script = file
	keep := false
	type try struct {
		bi, ms int
		slim   bool
	}
	var tries []try
	if len(opt.backends) > 1 && opt.ms > 1500 {
		if sl != "" {
			slimFile := file + ".slim"
			_ = os.WriteFile(slimFile, []byte(sl), 0o644)
			defer os.Remove(slimFile)
			tries = append(tries, try{0, 700, true}, try{1, 700, true}, try{2, 1500, true})
		}
		// the solvers differ in which obligations they find easy
		tries = append(tries, try{0, 700, false}, try{1, 700, false}, try{2, 1500, false})
	}
	for _, bi := range opt.backends {
		tries = append(tries, try{bi, opt.ms, false})
	}
	for _, tr := range tries {
		b := backends[tr.bi]
		f, text := file, sc
		if tr.slim {
			f, text = file+".slim", sl
		}
		if b.name == "cvc5" {
			f += ".cvc5"
			s2 := strings.Replace(text, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", "", 1)
			_ = os.WriteFile(f, []byte(s2), 0o644)
		}
		out, secs := runBackend(b, f, tr.ms)
		o.secs += secs
		r := firstLine(out)
		o.output += fmt.Sprintf("%s (%.2fs): %s\n", b.name, secs, trunc(out, 2000))
		if r == "unsat" {
			o.status, o.backend = "unsat", b.name
			break
		}
		if r == "error" && !strings.Contains(out, "interrupted") && !strings.Contains(out, "out of memory") && out != "" {
			keep = true
		}
		o.status, o.backend = "unknown", b.name
		if r == "sat" && !tr.slim {
			o.status = "sat"
			break
		}
		if f != file && f != file+".slim" {
			_ = os.Remove(f)
		}
	}
	_ = keep
	if o.status == "unsat" {
		_ = os.Remove(file)
		_ = os.Remove(file + ".cvc5")
	}
	solverMu.Lock()
	if o.status == "unsat" {
		solveCache[h] = o.status + "|" + o.backend
	}
	solverMu.Unlock()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func solveAll(spec *Spec, obls []*Obl, opt solveOpts, par int) {
	ch := make(chan *Obl)
	var failed sync.Map
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				if o.cand == "" {
					solve(spec, o, opt)
					continue
				}
				// one failed obligation suffices to drop a candidate; guessed frames get little time
				if _, bad := failed.Load(o.cand); bad {
					o.status = "skipped"
					continue
				}
				co := opt
				if strings.Contains(o.cand, "/frame:") {
					co.ms, co.backends = min(opt.ms, 2500), opt.backends[:1]
				}
				solve(spec, o, co)
				if o.status != "unsat" && o.status != "trivial" {
					failed.Store(o.cand, true)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.status == "" {
			ch <- o
		}
	}
	close(ch)
	wg.Wait()
}
