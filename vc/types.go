package main

// Go types to SMT sorts; heap components.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var mainPkg *types.Package
var mainSSA *ssa.Package
var prog *ssa.Program

// identity struct types carry the address they were loaded from ($self) when copied by value.
var identityTypes = map[string]bool{}

// STy is the type of a specification expression.
type STy struct {
	gt   types.Type // Go type, or nil
	kind string     // "go", "set", "map", "ref", "real"
	k, v *STy
}

func goTy(t types.Type) *STy { return &STy{gt: t, kind: "go"} }

var (
	tyInt   = goTy(types.Typ[types.Int])
	tyBool  = goTy(types.Typ[types.Bool])
	tyStr   = goTy(types.Typ[types.String])
	tyAny   = goTy(types.NewInterfaceType(nil, nil))
	tyRef   = &STy{kind: "ref"}
	tyReal  = &STy{kind: "real"}
	tyFunc  = goTy(types.NewSignatureType(nil, nil, nil, nil, nil, false))
	tyUntyp = &STy{kind: "nil"}
)

func (s *STy) sort() Sort {
	switch s.kind {
	case "go":
		return sortOf(s.gt)
	case "set":
		return ArrSort(s.k.sort(), SBool)
	case "map":
		return ArrSort(s.k.sort(), s.v.sort())
	case "ref":
		return SRef
	case "real":
		return SReal
	}
	panic("sort of " + s.kind)
}

func (s *STy) String() string {
	switch s.kind {
	case "go":
		return s.gt.String()
	case "set":
		return "set[" + s.k.String() + "]"
	case "map":
		return "map[" + s.k.String() + "]" + s.v.String()
	}
	return s.kind
}

func qual(p *types.Package) string {
	if p == mainPkg {
		return ""
	}
	return p.Name()
}

func typeKey(t types.Type) string { return types.TypeString(t, qual) }

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil && o.Pkg() != mainPkg {
			return o.Pkg().Name() + "." + o.Name()
		}
		return o.Name()
	}
	return typeKey(t)
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func externType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg() != mainPkg
}

var opaqueSorts = map[Sort]bool{}

var sortCache = map[types.Type]Sort{}

func sortOf(t types.Type) Sort {
	if s, ok := sortCache[t]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[t] = s
	return s
}

func sortOf1(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return SBool
		case i&types.IsInteger != 0:
			return SInt
		case i&types.IsString != 0:
			return SStr
		case i&(types.IsFloat|types.IsComplex) != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SRef
		}
		return SRef
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFunc
	case *types.Slice:
		return SSlice
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if externType(t) {
			s := "O_" + sanitize(typeName(t))
			opaqueSorts[s] = true
			return s
		}
		s := "T_" + sanitize(typeName(t))
		if _, ok := dtypes[s]; ok {
			return s
		}
		var fs []DTField
		if identityTypes[typeName(t)] {
			fs = append(fs, DTField{"sel_" + s + "_Sself", SRef})
		}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, DTField{fmt.Sprintf("sel_%s_%s", s, sanitize(u.Field(i).Name())), sortOf(u.Field(i).Type())})
		}
		regDT(s, fs)
		return s
	case *types.Tuple:
		return "Tuple"
	}
	return SRef
}

func dtFieldIdx(t types.Type, i int) int {
	if identityTypes[typeName(t)] {
		return i + 1
	}
	return i
}

func zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return IntT(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SRef:
		return Nil
	case SIface:
		return INil
	case SFunc:
		return FNil
	case SFlt:
		return App("fltzero", SFlt)
	case SReal:
		return mk("real", SReal, "0.0")
	case SSlice:
		return NilSlice
	}
	if strings.HasPrefix(s, "(Array ") {
		_, v := arrParts(s)
		return ConstArr(s, zeroSort(v))
	}
	if d, ok := dtypes[s]; ok {
		var as []*Term
		for _, f := range d.fields {
			as = append(as, zeroSort(f.sort))
		}
		return mkDT(s, as...)
	}
	return App("zero_"+sanitize(s), s)
}

func zeroOf(t types.Type) *Term { return zeroSort(sortOf(t)) }

// ---- heap components ----

type Comp struct {
	name string
	val  Sort // sort of the value at one reference
}

var comps = map[string]*Comp{}

func comp(name string, val Sort) *Comp {
	c, ok := comps[name]
	if !ok {
		c = &Comp{name, val}
		comps[name] = c
	}
	if c.val != val {
		panic("comp sort clash " + name + " " + c.val + " " + val)
	}
	return c
}

func fieldComp(t types.Type, i int) *Comp {
	st := structOf(t)
	f := st.Field(i)
	return comp("F:"+typeName(t)+"."+f.Name(), sortOf(f.Type()))
}

func cellComp(t types.Type) *Comp { s := sortOf(t); return comp("C:"+s, s) }
func elemComp(t types.Type) *Comp { s := sortOf(t); return comp("E:"+s, ArrSort(SInt, s)) }
func mapComps(m *types.Map) (*Comp, *Comp) {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	return comp("MD:"+k+":"+v, ArrSort(k, SBool)), comp("MV:"+k+":"+v, ArrSort(k, v))
}

type GhostField struct {
	typ  string // Go type name
	name string // with $
	ty   *STy
	only []types.Type // for ghost fields of maps: the (underlying) types of map that have it, all if none is given
}

func (g *GhostField) of(t types.Type) bool {
	if len(g.only) == 0 {
		return true
	}
	for _, o := range g.only {
		if types.Identical(o, t.Underlying()) {
			return true
		}
	}
	return false
}

var ghostFields = map[string]map[string]*GhostField{} // type -> name -> field

func ghostComp(g *GhostField) *Comp { return comp("G:"+g.typ+"."+g.name, g.ty.sort()) }

// birth of heap constants, for reading unallocated memory
type birth struct {
	base int // index of the allocation base
	off  int
}

var constBirth = map[*Term]birth{}
var baseIndex = map[*Term]int{}
var nBases int

func newBase() *Term {
	nBases++
	b := Const(fmt.Sprintf("alloc!%d", nBases), SInt)
	baseIndex[b] = nBases
	stampCount++
	b.stamp = stampCount
	return b
}

// rootNew finds the allocated object a reference lies in, if syntactically known.
func rootNew(r *Term) *Term {
	for isSub(r) {
		r = r.args[0]
	}
	if r.op == "new" {
		return r
	}
	return nil
}

// hsel reads a heap component, knowing that memory not yet allocated when the constant was born is zero.
func hsel(h, r *Term) *Term {
	for {
		if h.op == "store" {
			if h.args[1] == r {
				return h.args[2]
			}
			if distinctT(h.args[1], r) {
				h = h.args[0]
				continue
			}
			break
		}
		break
	}
	if b, ok := constBirth[h]; ok {
		if n := rootNew(r); n != nil {
			var k int
			fmt.Sscan(n.name, &k)
			bi := baseIndex[n.args[0]]
			if bi > b.base || bi == b.base && k >= b.off {
				_, v := arrParts(h.sort)
				return zeroSort(v)
			}
		}
	}
	return Select(h, r)
}

func fullFnName(fn *ssa.Function) string {
	s := fn.RelString(mainPkg)
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	return s
}
