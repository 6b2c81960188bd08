package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World holds the program under verification and the logical vocabulary.
type World struct {
	noShift   bool // render quantifiers as written
	constGlob map[string]*ssa.Const
	prog      *ssa.Program
	modPath   string

	anyDT   *Datatype
	anyNil  *Ctor
	anyOth  *Ctor
	anyT    map[string]*Ctor // by type string
	anyGo   map[*Ctor]types.Type
	structs map[string]*Datatype
	dtOrder []*Datatype
	sliceDT *Datatype
	sliceC  *Ctor
	named   map[string]types.Type

	closures []*Closure
	fnIDs    map[*ssa.Function]int

	implTab map[string]types.Type // interface name -> type, for impl predicates used
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Value
	ID    int
}

const closureBase = 1 << 40

func NewWorld() *World {
	w := &World{anyT: map[string]*Ctor{}, anyGo: map[*Ctor]types.Type{}, structs: map[string]*Datatype{}, fnIDs: map[*ssa.Function]int{}, named: map[string]types.Type{}, implTab: map[string]types.Type{}}
	w.anyDT = &Datatype{Name: "Any"}
	w.anyDT.S = &Sort{Name: "Any", DT: w.anyDT}
	w.anyNil = &Ctor{Name: "any_nil", DT: w.anyDT}
	w.anyOth = &Ctor{Name: "any_other", DT: w.anyDT, Fields: []Field{{"any_tag", IntS}, {"any_id", RefS}}}
	w.anyDT.Ctors = []*Ctor{w.anyNil, w.anyOth}
	w.sliceDT = &Datatype{Name: "Slice"}
	w.sliceDT.S = &Sort{Name: "Slice", DT: w.sliceDT}
	w.sliceC = &Ctor{Name: "slice", DT: w.sliceDT, Fields: []Field{{"s_arr", RefS}, {"s_off", IntS}, {"s_len", IntS}, {"s_cap", IntS}}}
	w.sliceDT.Ctors = []*Ctor{w.sliceC}
	return w
}

func (w *World) NilAny() *Term { return MkCtor(w.anyNil) }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func (w *World) anyCtor(t types.Type) *Ctor {
	k := typeKey(t)
	if c, ok := w.anyT[k]; ok {
		return c
	}
	s := w.sortOf(t)
	name := fmt.Sprintf("any_%s_%d", sanitize(shortType(t)), len(w.anyT))
	c := &Ctor{Name: name, DT: w.anyDT, Fields: []Field{{name + "_v", s}}}
	w.anyT[k] = c
	w.anyGo[c] = t
	w.anyDT.Ctors = append(w.anyDT.Ctors, c)
	return c
}

func (w *World) isRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == w.modPath || strings.HasPrefix(pkg.Path(), w.modPath+"/"))
}

// stringModel: external struct types modelled by their string content.
func stringModel(t types.Type) bool {
	switch typeKey(t) {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

func (w *World) isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return !w.isRepo(n.Obj().Pkg())
}

func (w *World) sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if stringModel(t) {
		return StrS
	}
	if w.isOpaqueStruct(t) {
		w.named[typeKey(t)] = t
		return UninS("O_" + sanitize(shortType(t)))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsFloat != 0:
			return RealS
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Info()&types.IsComplex != 0:
			return UninS("Complex")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return RefS
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return RefS
	case *types.Slice:
		return w.sliceDT.S
	case *types.Interface:
		return w.anyDT.S
	case *types.Array:
		return ArrS(IntS, w.sortOf(u.Elem()))
	case *types.Struct:
		return w.structDT(t).S
	}
	panic(unsupported{"sort of type " + t.String()})
}

func (w *World) structDT(t types.Type) *Datatype {
	t = types.Unalias(t)
	k := typeKey(t)
	if d, ok := w.structs[k]; ok {
		return d
	}
	u := t.Underlying().(*types.Struct)
	name := fmt.Sprintf("S%d_%s", len(w.structs), sanitize(shortType(t)))
	if len(name) > 60 {
		name = name[:60]
	}
	d := &Datatype{Name: name}
	d.S = &Sort{Name: name, DT: d}
	w.structs[k] = d
	c := &Ctor{Name: "mk_" + name, DT: d}
	d.Ctors = []*Ctor{c}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		c.Fields = append(c.Fields, Field{fmt.Sprintf("%s_%d_%s", name, i, sanitize(f.Name())), w.sortOf(f.Type())})
	}
	w.dtOrder = append(w.dtOrder, d)
	return d
}

func (w *World) zero(t types.Type) *Term {
	t = types.Unalias(t)
	if stringModel(t) {
		return Str("")
	}
	if w.isOpaqueStruct(t) {
		s := w.sortOf(t)
		return Var("zero_"+s.Name, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch w.sortOf(t) {
		case BoolS:
			return False
		case IntS:
			return Int(0)
		case RefS:
			return Ref(0)
		case RealS:
			return Rat(new(big.Rat))
		case StrS:
			return Str("")
		}
		return Var("zero_"+w.sortOf(t).Name, w.sortOf(t))
	case *types.Slice:
		return MkCtor(w.sliceC, Ref(0), Int(0), Int(0), Int(0))
	case *types.Interface:
		return w.NilAny()
	case *types.Array:
		return ConstArr(w.sortOf(t), w.zero(u.Elem()))
	case *types.Struct:
		d := w.structDT(t)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, w.zero(u.Field(i).Type()))
		}
		return MkCtor(d.Ctors[0], args...)
	}
	return Ref(0)
}

// intRange returns the range of an integer type (nil if not an integer).
func intRange(t types.Type) (lo, hi *big.Int, bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	default:
		bits = 64
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, bits, signed, true
}

func epochBound(r refInfo) *Term {
	if r.epoch == 0 {
		return Ref(r.off)
	}
	return RefPlus(epochBase[r.epoch], r.off)
}

var epochBase = map[int]*Term{}
var epochCnt int

// typeFacts registers what is known of every value of type t about the term x.
func (w *World) typeFacts(t types.Type, x *Term) {
	w.typeFacts1(t, x, 0)
}

func (w *World) typeFacts1(t types.Type, x *Term, depth int) {
	if isConst(x) || depth > 4 {
		return
	}
	t = types.Unalias(t)
	if w.isOpaqueStruct(t) || stringModel(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, _, _, ok := intRange(t); ok {
			setBounds(x, lo, hi)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		w.refFact(x)
	case *types.Slice:
		if x.Op == "ctor" {
			return
		}
		arr, off, ln, cp := Sel(w.sliceC, 0, x), Sel(w.sliceC, 1, x), Sel(w.sliceC, 2, x), Sel(w.sliceC, 3, x)
		if arr.Op == "sel" {
			w.refFact(arr)
		}
		z := new(big.Int)
		for _, v := range []*Term{off, ln, cp} {
			if v.Op == "sel" {
				setBounds(v, z, maxLen)
			}
		}
		addFact(x, And(op("<=", BoolS, ln, cp), Imp(Eq(arr, Ref(0)), And(Eq(cp, Int(0)), Eq(off, Int(0))))))
		_ = u
	case *types.Struct:
		if x.Op == "ctor" {
			return
		}
		d := w.structDT(t)
		for i := 0; i < u.NumFields(); i++ {
			w.typeFacts1(u.Field(i).Type(), Sel(d.Ctors[0], i, x), depth+1)
		}
	case *types.Interface:
		// payload facts are added on assertion
	}
}

func (w *World) refFact(x *Term) {
	if isConst(x) {
		return
	}
	if r, ok := refInfoOf(x); ok && !r.exact {
		addFact(x, op("<=", BoolS, x, epochBound(r)))
	}
}

// input makes a symbolic pre-state value.
func (w *World) input(name string, t types.Type) *Term {
	x := Var(name, w.sortOf(t))
	refTab[x] = refInfo{0, 0, false}
	w.typeFacts(t, x)
	return x
}

func (w *World) freshVal(hint string, t types.Type, r refInfo) *Term {
	x := Fresh(hint, w.sortOf(t))
	r.exact = false
	refTab[x] = r
	w.typeFacts(t, x)
	return x
}

func (w *World) closureTerm(c *Closure) *Term {
	if c.ID == 0 {
		if len(c.Binds) == 0 {
			if id, ok := w.fnIDs[c.Fn]; ok {
				c.ID = id
				return Ref(int64(id))
			}
		}
		w.closures = append(w.closures, c)
		c.ID = closureBase + len(w.closures)
		if len(c.Binds) == 0 {
			w.fnIDs[c.Fn] = c.ID
		}
	}
	return Ref(int64(c.ID))
}

func (w *World) closureOf(t *Term) *Closure {
	if t.Op == "ref" && t.I.IsInt64() {
		i := int(t.I.Int64()) - closureBase - 1
		if i >= 0 && i < len(w.closures) {
			return w.closures[i]
		}
	}
	return nil
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }
