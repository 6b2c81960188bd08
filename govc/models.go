package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts assumed of the standard library and of external modules.

type model func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome
type ifaceModel func(x *Exec, fr *Frame, st *State, in ssa.Instruction, r *Term, args []Value, sig *types.Signature) []Outcome

var closedIfaces = map[string]bool{
	"github.com/vorlif/spreak/catalog/cldrplural/ast.Node": true,
	"github.com/vorlif/spreak/catalog/poplural/ast.Node":   true,
}

var inlineStd = map[string]bool{
	"cmp.Compare": false,
}

var purePkgs = map[string]bool{
	"golang.org/x/text/language": true,
	"golang.org/x/text/message":  true,
	"golang.org/x/text/number":   true,
	"strings":                    true,
	"strconv":                    true,
	"unicode":                    true,
	"unicode/utf8":               true,
	"path":                       true,
	"path/filepath":              true,
	"math":                       true,
	"time":                       true,
	"reflect":                    true,
	"regexp":                     true,
}

func purePkg(p *types.Package) bool { return p != nil && purePkgs[p.Path()] }

var pureFn = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "io.ReadAll": true, "io/fs.Stat": true, "io/fs.ReadFile": true,
	"errors.Join": true, "os.DirFS": true, "errors.Unwrap": true, "io/fs.Open": true,
}

func ret(st *State, v Value) []Outcome { return []Outcome{{st, v}} }

// simple wraps a total function of its argument terms.
func simple(name string, f func(x *Exec, st *State, a []*Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		x.assumed["standard library contract of "+name] = true
		return ret(st, f(x, st, x.argTerms(st, fn, args)))
	}
}

func (x *Exec) argTerms(st *State, fn *ssa.Function, args []Value) []*Term {
	var ts []*Term
	sig := fn.Signature
	i := 0
	if sig.Recv() != nil {
		ts = append(ts, x.term(st, args[0], sig.Recv().Type()))
		i = 1
	}
	for k := 0; k < sig.Params().Len(); k++ {
		ts = append(ts, x.term(st, args[i+k], sig.Params().At(k).Type()))
	}
	return ts
}

func newError(x *Exec, st *State, tag int64) *Term {
	return MkCtor(x.w.anyOth, Int(tag), st.alloc())
}

var realZero = Rat(new(big.Rat))

func realFloor(t *Term) *Term {
	if t.Op == "to_real" {
		return t
	}
	return toReal(op("to_int", IntS, t))
}

func toReal(t *Term) *Term {
	if t.IsInt() {
		return Rat(new(big.Rat).SetInt(t.I))
	}
	return op("to_real", RealS, t)
}

func itoa(t *Term) *Term {
	if t.IsInt() {
		return Str(t.I.String())
	}
	u := op("str.from_int", StrS, t)
	if l, _, ok := bounds(t); ok && l != nil && l.Sign() >= 0 {
		return u
	}
	return Ite(Le(Int(0), t), u, Concat(Str("-"), op("str.from_int", StrS, Neg(t))))
}

// builderPlace is the content of a strings.Builder / bytes.Buffer receiver.
func (x *Exec) builderPlace(v Value, fn *ssa.Function) *Place {
	elem := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	return x.placeOf(x.ip(v), elem)
}

func (x *Exec) builderAdd(st *State, v Value, fn *ssa.Function, s *Term) {
	p := x.builderPlace(v, fn)
	x.store(st, p, Concat(x.load(st, p).(*Term), s))
}

var models map[string]model
var ifaceModels map[string]ifaceModel

func init() {
	models = map[string]model{
		"strings.Contains":  simple("strings.Contains", func(x *Exec, st *State, a []*Term) *Term { return strOp("str.contains", BoolS, a[0], a[1]) }),
		"strings.HasPrefix": simple("strings.HasPrefix", func(x *Exec, st *State, a []*Term) *Term { return strOp("str.prefixof", BoolS, a[1], a[0]) }),
		"strings.HasSuffix": simple("strings.HasSuffix", func(x *Exec, st *State, a []*Term) *Term { return strOp("str.suffixof", BoolS, a[1], a[0]) }),
		"strings.Index": simple("strings.Index", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "str" && a[1].Op == "str" {
				return Int(int64(strings.Index(a[0].Str, a[1].Str)))
			}
			t := op("str.indexof", IntS, a[0], a[1], Int(0))
			addFact(t, And(op("<=", BoolS, Int(-1), t), op("<=", BoolS, t, StrLen(a[0]))))
			setBounds(t, big.NewInt(-1), maxLen)
			return t
		}),
		"strings.TrimPrefix": simple("strings.TrimPrefix", func(x *Exec, st *State, a []*Term) *Term {
			return Ite(strOp("str.prefixof", BoolS, a[1], a[0]), Substr(a[0], StrLen(a[1]), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
		}),
		"strings.TrimSuffix": simple("strings.TrimSuffix", func(x *Exec, st *State, a []*Term) *Term {
			return Ite(strOp("str.suffixof", BoolS, a[1], a[0]), Substr(a[0], Int(0), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
		}),
		"strings.ToUpper": simple("strings.ToUpper", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "str" {
				return Str(strings.ToUpper(a[0].Str))
			}
			return App("ToUpper", StrS, a[0])
		}),
		"strings.ToLower": simple("strings.ToLower", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "str" {
				return Str(strings.ToLower(a[0].Str))
			}
			return App("ToLower", StrS, a[0])
		}),
		"strings.EqualFold": simple("strings.EqualFold", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "str" && a[1].Op == "str" {
				return Bool(strings.EqualFold(a[0].Str, a[1].Str))
			}
			u := App("EqualFold", BoolS, a[0], a[1])
			addFact(u, Imp(Eq(a[0], a[1]), u))
			return u
		}),
		"strings.TrimSpace": simple("strings.TrimSpace", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "str" {
				return Str(strings.TrimSpace(a[0].Str))
			}
			u := App("TrimSpace", StrS, a[0])
			addFact(u, And(Le(StrLen(u), StrLen(a[0])), strOp("str.contains", BoolS, a[0], u)))
			return u
		}),
		"strings.Compare": simple("strings.Compare", func(x *Exec, st *State, a []*Term) *Term {
			return Ite(Eq(a[0], a[1]), Int(0), Ite(strOp("str.<", BoolS, a[0], a[1]), Int(-1), Int(1)))
		}),
		"strings.Repeat": simple("strings.Repeat", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "str" && a[1].IsInt() && a[1].I.IsInt64() && a[1].I.Int64() >= 0 && a[1].I.Int64() < 1000 {
				return Str(strings.Repeat(a[0].Str, int(a[1].I.Int64())))
			}
			return App("Repeat", StrS, a[0], a[1])
		}),
		"strings.ReplaceAll": simple("strings.ReplaceAll", func(x *Exec, st *State, a []*Term) *Term {
			return App("ReplaceAll", StrS, a[0], a[1], a[2])
		}),
		"strings.Join": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			a := x.argTerms(st, fn, args)
			if el, ok := x.sliceElems(st, a[0], types.Typ[types.String]); ok {
				var parts []*Term
				for i, e := range el {
					if i > 0 {
						parts = append(parts, a[1])
					}
					parts = append(parts, e)
				}
				return ret(st, Concat(parts...))
			}
			return x.pureCall(st, fn, args)
		},
		"path.Join": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return x.pureCall(st, fn, args)
		},
		"strconv.Itoa": simple("strconv.Itoa", func(x *Exec, st *State, a []*Term) *Term { return itoa(a[0]) }),
		"strconv.FormatInt": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			a := x.argTerms(st, fn, args)
			if a[1] == Int(10) {
				return ret(st, itoa(a[0]))
			}
			return x.pureCall(st, fn, args)
		},
		"errors.New": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of errors.New"] = true
			return ret(st, newError(x, st, 1))
		},
		"fmt.Errorf": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of fmt.Errorf (returns a new non-nil error)"] = true
			e := newError(x, st, 2)
			a := x.argTerms(st, fn, args)
			if a[0].Op == "str" && strings.Contains(a[0].Str, "%w") {
				if el, ok := x.sliceElems(st, a[1], x.w.anyType()); ok {
					for _, v := range el {
						// errors.Is(e, target) if errors.Is(v, target) for a wrapped v
						st.assume(Eq(App("wraps", BoolS, e, v), True))
						st.assume(App("errorsIs", BoolS, e, v))
					}
				}
			}
			return ret(st, e)
		},
		"errors.Is": simple("errors.Is", func(x *Exec, st *State, a []*Term) *Term {
			return Ite(Is(x.w.anyNil, a[0]), Is(x.w.anyNil, a[1]), Or(Eq(a[0], a[1]), App("errorsIs", BoolS, a[0], a[1])))
		}),
		"errors.Join": simple("errors.Join", func(x *Exec, st *State, a []*Term) *Term {
			el, ok := x.sliceElems(st, a[0], types.Universe.Lookup("error").Type())
			if !ok {
				panic(unsupported{"errors.Join of unknown length"})
			}
			var all []*Term
			for _, e := range el {
				all = append(all, Is(x.w.anyNil, e))
			}
			u := App(x.ufName("errors.Join", el), x.w.anyDT.S, el...)
			if _, ok := refTab[u]; !ok {
				refTab[u] = refInfo{0, 0, false}
			}
			addFact(u, Eq(Is(x.w.anyNil, u), And(all...)))
			return u
		}),
		"errors.As": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of errors.As"] = true
			err := x.term(st, args[0], fn.Signature.Params().At(0).Type())
			// the target is a pointer boxed in an interface: find it in the SSA
			c := in.(*ssa.Call)
			mi, ok := c.Call.Args[1].(*ssa.MakeInterface)
			if !ok {
				panic(unsupported{"errors.As target"})
			}
			tt := mi.X.Type().Underlying().(*types.Pointer).Elem()
			p := x.placeOf(x.ip(x.val(fr, st, mi.X)), tt)
			var found, val *Term
			if types.IsInterface(tt) {
				direct := x.implements(err, tt)
				deep := App("asFound|"+typeKey(tt), BoolS, err)
				dv := App("asValue|"+typeKey(tt), x.w.anyDT.S, err)
				refTab[dv] = refInfo{0, 0, false}
				addFact(dv, Imp(deep, x.implements(dv, tt)))
				found = And(Not(Is(x.w.anyNil, err)), Or(direct, deep))
				val = Ite(direct, err, dv)
			} else {
				ct := x.w.anyCtor(tt)
				direct := Is(ct, err)
				deep := App("asFound|"+typeKey(tt), BoolS, err)
				dv := App("asValue|"+typeKey(tt), x.w.sortOf(tt), err)
				refTab[dv] = refInfo{0, 0, false}
				x.w.typeFacts(tt, dv)
				found = And(Not(Is(x.w.anyNil, err)), Or(direct, deep))
				val = Ite(direct, Sel(ct, 0, err), dv)
			}
			var outs []Outcome
			s2 := st.clone()
			s2.branch(found)
			if !s2.dead() && x.feasible(s2) {
				x.store(s2, p, val)
				outs = append(outs, Outcome{s2, True})
			}
			s3 := st.clone()
			s3.branch(Not(found))
			if !s3.dead() && x.feasible(s3) {
				outs = append(outs, Outcome{s3, False})
			}
			return outs
		},
		"math.Abs":   simple("math.Abs", func(x *Exec, st *State, a []*Term) *Term { return Ite(Le(realZero, a[0]), a[0], Neg(a[0])) }),
		"math.Floor": simple("math.Floor", func(x *Exec, st *State, a []*Term) *Term { return realFloor(a[0]) }),
		"math.Ceil":  simple("math.Ceil", func(x *Exec, st *State, a []*Term) *Term { return Neg(realFloor(Neg(a[0]))) }),
		"math.Trunc": simple("math.Trunc", func(x *Exec, st *State, a []*Term) *Term { return toReal(realTrunc(a[0])) }),
		"math.Round": simple("math.Round", func(x *Exec, st *State, a []*Term) *Term {
			h := Rat(big.NewRat(1, 2))
			return Ite(Le(realZero, a[0]), realFloor(Add(a[0], h)), Neg(realFloor(Add(Neg(a[0]), h))))
		}),
		"math.RoundToEven": simple("math.RoundToEven", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].Op == "to_real" {
				return a[0]
			}
			fl := op("to_int", IntS, a[0])
			d := Sub(a[0], toReal(fl))
			h := Rat(big.NewRat(1, 2))
			up := toReal(Add(fl, Int(1)))
			return Ite(Lt(d, h), toReal(fl), Ite(Lt(h, d), up, Ite(Eq(EMod(fl, Int(2)), Int(0)), toReal(fl), up)))
		}),
		"math.Mod": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of math.Mod (exact remainder with the sign of the dividend)"] = true
			a := x.argTerms(st, fn, args)
			x.safety(st, fr, "float-mod-zero", Not(Eq(a[1], realZero)), in.Pos())
			xx, y := a[0], a[1]
			if xx.Op == "to_real" && y.Op == "real" && y.R.IsInt() {
				return ret(st, toReal(trem(xx.Args[0], BigInt(y.R.Num()))))
			}
			ay := Ite(Le(realZero, y), y, Neg(y))
			pos := Sub(xx, Mul(ay, realFloor(RDiv(xx, ay))))
			neg := Neg(Sub(Neg(xx), Mul(ay, realFloor(RDiv(Neg(xx), ay)))))
			return ret(st, Ite(Le(realZero, xx), pos, neg))
		},
		"slices.Contains": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of slices.Contains"] = true
			a := x.argTerms(st, fn, args)
			et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			if el, ok := x.sliceElems(st, a[0], et); ok {
				var cs []*Term
				for _, e := range el {
					cs = append(cs, Eq(e, a[1]))
				}
				return ret(st, Or(cs...))
			}
			row := Select(x.elemArr(st, et), x.sArr(a[0]))
			u := App("contains|"+typeKey(et), BoolS, row, x.sOff(a[0]), x.sLen(a[0]), a[1])
			w := App("containsAt|"+typeKey(et), IntS, row, x.sOff(a[0]), x.sLen(a[0]), a[1])
			bv := BVar("i", IntS)
			sel := func(i *Term) *Term { return op("select", row.S.Elem, row, Add(x.sOff(a[0]), i)) }
			addFact(u, Imp(u, And(Le(Int(0), w), Lt(w, x.sLen(a[0])), Eq(sel(w), a[1]))))
			addFact(u, Forall([]*Term{bv}, Imp(And(Le(Int(0), bv), Lt(bv, x.sLen(a[0])), Eq(sel(bv), a[1])), u)))
			return ret(st, u)
		},
		"slices.Clone": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of slices.Clone"] = true
			a := x.argTerms(st, fn, args)
			et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			if a[0].Op == "ctor" && x.sArr(a[0]) == Ref(0) {
				return ret(st, a[0])
			}
			r := st.alloc()
			arr := x.elemArr(st, et)
			row := x.rebase(st, Select(arr, x.sArr(a[0])), x.sOff(a[0]), x.sLen(a[0]))
			st.heap["E|"+typeKey(et)] = Store(arr, r, row)
			isNil := Eq(x.sArr(a[0]), Ref(0))
			n := x.sLen(a[0])
			return ret(st, Ite(isNil, x.w.zero(fn.Signature.Params().At(0).Type()), x.mkSlice(r, Int(0), n, n)))
		},
		"maps.Clone": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["standard library contract of maps.Clone"] = true
			a := x.argTerms(st, fn, args)
			mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
			m := a[0]
			if m == Ref(0) {
				return ret(st, Ref(0))
			}
			n := x.makeMap(st, mt)
			dk, vk, lk := mapKeys(mt)
			d, v, l := x.mapArrs(st, mt)
			st.heap[dk] = Store(d, n, Select(d, m))
			st.heap[vk] = Store(v, n, Select(v, m))
			st.heap[lk] = Store(l, n, x.mapLen(st, m, mt))
			return x.nilCase(st, fr, m, n)
		},
		"maps.Keys": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			a := x.argTerms(st, fn, args)
			mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
			d, _, _ := x.mapArrs(st, mt)
			u := App("maps.Keys|"+typeKey(mt), RefS, a[0])
			refTab[u] = refInfo{0, 0, false}
			addFact(u, Not(Eq(u, Ref(0))))
			x.seqs[u] = &seqInfo{m: a[0], mt: mt, dom: Select(d, a[0])}
			return ret(st, u)
		},
		"slices.Sorted": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return x.collectKeys(st, fn, args[0], true)
		},
		"slices.AppendSeq": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			// only for an empty slice of storage made during this execution: the result is a
			// slice of its own that enumerates the keys
			s, ok := args[0].(*Term)
			if !ok || s.Op != "ctor" || x.sLen(s) != Int(0) || x.sArr(s).Op != "ref" || x.sArr(s) == Ref(0) {
				panic(unsupported{"slices.AppendSeq to a slice that is not new and empty"})
			}
			outs := x.collectKeys(st, fn, args[1], false)
			for i := range outs {
				t := outs[i].res.(*Term)
				if t.Op == "ctor" {
					a := x.sArr(t)
					if a.Op == "ite" {
						a = a.Args[2]
					} else if a == Ref(0) {
						a = x.sArr(s)
					}
					outs[i].res = x.mkSlice(a, Int(0), x.sLen(t), x.freshCap(outs[i].st, x.sLen(t)))
				}
			}
			return outs
		},
		"slices.Collect": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return x.collectKeys(st, fn, args[0], false)
		},
		"cmp.Compare": simple("cmp.Compare", func(x *Exec, st *State, a []*Term) *Term {
			if a[0].S == StrS {
				return Ite(Eq(a[0], a[1]), Int(0), Ite(strOp("str.<", BoolS, a[0], a[1]), Int(-1), Int(1)))
			}
			return Ite(Lt(a[0], a[1]), Int(-1), Ite(Lt(a[1], a[0]), Int(1), Int(0)))
		}),
		"fmt.Sprintf": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			a := x.argTerms(st, fn, args)
			if a[0].Op == "str" {
				if el, ok := x.sliceElems(st, a[1], x.w.anyType()); ok {
					if r := x.sprintf(a[0].Str, el); r != nil {
						x.assumed["standard library contract of fmt.Sprintf (literal text, %s of strings, %d of integers)"] = true
						return ret(st, r)
					}
				}
			}
			return x.pureCall(st, fn, args)
		},
		"fmt.Println": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return ret(st, Tuple{Int(0), x.w.NilAny()})
		},
		// Indirect follows pointers by reflection; a value whose dynamic type is a known
		// non-pointer type is returned as it is.
		"github.com/vorlif/spreak/internal/cast.Indirect": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.assumed["cast.Indirect returns a value that is not a pointer unchanged (reflection is outside the verifier)"] = true
			a := x.term(st, args[0], x.w.anyType())
			if a.Op == "ctor" {
				if t := x.w.anyGo[a.Ctor]; t != nil {
					if _, isP := t.Underlying().(*types.Pointer); !isP {
						return ret(st, a)
					}
				}
				if a.Ctor == x.w.anyNil {
					return ret(st, a)
				}
			}
			u := App("Indirect", x.w.anyDT.S, a)
			refTab[u] = refInfo{0, 0, false}
			addFact(u, Imp(Is(x.w.anyNil, a), Is(x.w.anyNil, u)))
			for _, k := range sortedKeys(x.w.anyT) {
				c := x.w.anyT[k]
				if _, isP := x.w.anyGo[c].Underlying().(*types.Pointer); !isP {
					addFact(u, Imp(Is(c, a), Eq(u, a)))
				}
			}
			return ret(st, u)
		},
	}
	for _, b := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		models[b+".WriteString"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			s := x.term(st, args[1], types.Typ[types.String])
			x.builderAdd(st, args[0], fn, s)
			return ret(st, Tuple{StrLen(s), x.w.NilAny()})
		}
		models[b+".Write"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			s := x.bytesContent(st, x.term(st, args[1], fn.Signature.Params().At(0).Type()))
			x.builderAdd(st, args[0], fn, s)
			return ret(st, Tuple{StrLen(s), x.w.NilAny()})
		}
		models[b+".WriteByte"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.builderAdd(st, args[0], fn, FromCode(args[1].(*Term)))
			return ret(st, x.w.NilAny())
		}
		models[b+".WriteRune"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			s := x.runeToStr(args[1].(*Term))
			x.builderAdd(st, args[0], fn, s)
			return ret(st, Tuple{StrLen(s), x.w.NilAny()})
		}
		models[b+".String"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return ret(st, x.load(st, x.builderPlace(args[0], fn)))
		}
		models[b+".Bytes"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return ret(st, x.newBytes(st, x.load(st, x.builderPlace(args[0], fn)).(*Term)))
		}
		models[b+".Len"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return ret(st, StrLen(x.load(st, x.builderPlace(args[0], fn)).(*Term)))
		}
		models[b+".Grow"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			return ret(st, nil)
		}
		models[b+".Reset"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			x.store(st, x.builderPlace(args[0], fn), Str(""))
			return ret(st, nil)
		}
	}
	models["(*bytes.Buffer).WriteTo"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		w := args[1].(*Term)
		if w.Op == "ctor" && w.Ctor.DT == x.w.anyDT {
			if t := x.w.anyGo[w.Ctor]; t != nil && typeKey(t) == "*bytes.Buffer" {
				p := x.builderPlace(args[0], fn)
				q := x.placeOf(x.ip(w.Args[0]), t.Underlying().(*types.Pointer).Elem())
				s := x.load(st, p).(*Term)
				x.store(st, q, Concat(x.load(st, q).(*Term), s))
				x.store(st, p, Str(""))
				return ret(st, Tuple{StrLen(s), x.w.NilAny()})
			}
		}
		panic(unsupported{"bytes.Buffer.WriteTo"})
	}
	sortFunc := func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		// a slice of known length: the result is a rearrangement of the elements in which
		// neighbours are in order
		pt := fn.Signature.Params().At(0).Type()
		et := pt.Underlying().(*types.Slice).Elem()
		s := x.term(st, args[0], pt)
		el, ok := x.sliceElems(st, s, et)
		cl, okc := args[1].(*Closure)
		if !ok || !okc || len(el) > 16 {
			panic(unsupported{"sorting a slice of unknown length"})
		}
		if len(el) < 2 {
			return ret(st, nil)
		}
		x.assumed["standard library contract of slices.SortFunc/SortStableFunc (the result is an ordered rearrangement)"] = true
		var out []*Term
		for range el {
			v := Fresh("sorted", el[0].S)
			x.w.typeFacts(et, v)
			out = append(out, v)
		}
		any := func(t *Term, in []*Term) *Term {
			var cs []*Term
			for _, o := range in {
				cs = append(cs, Eq(t, o))
			}
			return Or(cs...)
		}
		for _, e := range el {
			st.assume(any(e, out))
		}
		for _, o := range out {
			st.assume(any(o, el))
		}
		for i := 0; i+1 < len(out); i++ {
			st.assume(Le(x.pureEval(fr, st, cl, []Value{out[i], out[i+1]}), Int(0)))
		}
		arr := x.elemArr(st, et)
		row := Select(arr, x.sArr(s))
		for i, o := range out {
			row = Store(row, Add(x.sOff(s), Int(int64(i))), o)
		}
		st.heap["E|"+typeKey(et)] = Store(arr, x.sArr(s), row)
		return ret(st, nil)
	}
	models["slices.SortStableFunc"] = sortFunc
	models["slices.SortFunc"] = sortFunc
	models["utf8.RuneLen"] = nil
	delete(models, "utf8.RuneLen")

	ifaceModels = map[string]ifaceModel{
		"io/fs.File.Close": func(x *Exec, fr *Frame, st *State, in ssa.Instruction, r *Term, args []Value, sig *types.Signature) []Outcome {
			st.events = append(st.events, Event{fn: Ref(0), name: "Close", args: []*Term{r}})
			e := App("File.Close", x.w.anyDT.S, r)
			refTab[e] = refInfo{0, 0, false}
			return ret(st, e)
		},
	}
}

type seqInfo struct {
	m   *Term
	mt  *types.Map
	dom *Term
}

func (w *World) anyType() types.Type { return types.NewInterfaceType(nil, nil) }

// nilCase: nil for a nil map, otherwise n.
func (x *Exec) nilCase(st *State, fr *Frame, m, n *Term) []Outcome {
	c := Eq(m, Ref(0))
	if c.IsFalse() {
		return ret(st, n)
	}
	var outs []Outcome
	s2 := st.clone()
	s2.branch(Not(c))
	if !s2.dead() && x.feasible(s2) {
		outs = append(outs, Outcome{s2, n})
	}
	s3 := st.clone()
	s3.branch(c)
	if !s3.dead() && x.feasible(s3) {
		outs = append(outs, Outcome{s3, Ref(0)})
	}
	return outs
}

// collectKeys: a new slice that enumerates the keys of a map, each once.
func (x *Exec) collectKeys(st *State, fn *ssa.Function, seq Value, sorted bool) []Outcome {
	t, ok := seq.(*Term)
	if !ok {
		panic(unsupported{"sequence of unknown origin"})
	}
	si := x.seqs[t]
	if si == nil {
		panic(unsupported{"sequence of unknown origin"})
	}
	x.assumed["standard library contract of slices.Sorted/Collect(maps.Keys(m))"] = true
	if lit := storeKeys(si.dom); lit != nil && len(lit) == 0 {
		return ret(st, x.w.zero(fn.Signature.Results().At(0).Type()))
	}
	n := x.mapLen(st, si.m, si.mt)
	et := si.mt.Key()
	r := st.alloc()
	arr := x.elemArr(st, et)
	row := Fresh("keys", arr.S.Elem)
	refTab[row] = refInfo{0, 0, false}
	if e, ok := rootEpoch(si.dom); ok {
		refTab[row] = e
	}
	st.heap["E|"+typeKey(et)] = Store(arr, r, row)
	i := BVar("i", IntS)
	st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, n)), Select(si.dom, op("select", row.S.Elem, row, i)))))
	k := BVar("k", row.S.Elem)
	pos := App(fmt.Sprintf("keypos|%d", row.ID), IntS, k)
	st.assume(intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{k}, Args: []*Term{Imp(op("select", BoolS, si.dom, k), And(op("<=", BoolS, Int(0), pos), op("<", BoolS, pos, n), op("=", BoolS, op("select", row.S.Elem, row, pos), k)))}}))
	j := BVar("j", IntS)
	i2 := BVar("i", IntS)
	rel := Not(op("=", BoolS, op("select", row.S.Elem, row, i2), op("select", row.S.Elem, row, j)))
	if sorted && row.S.Elem == StrS {
		rel = op("str.<", BoolS, op("select", row.S.Elem, row, i2), op("select", row.S.Elem, row, j))
	} else if sorted && row.S.Elem == IntS {
		rel = op("<", BoolS, op("select", row.S.Elem, row, i2), op("select", row.S.Elem, row, j))
	}
	st.assume(intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{i2, j}, Args: []*Term{Imp(And(op("<=", BoolS, Int(0), i2), op("<", BoolS, i2, j), op("<", BoolS, j, n)), rel)}}))
	cp := x.freshCap(st, n)
	nilS := Eq(n, Int(0))
	res := x.mkSlice(Ite(nilS, Ref(0), r), Int(0), n, Ite(nilS, Int(0), cp))
	return ret(st, res)
}

// sprintf interprets formats made of literal text, %s/%v of strings and %d/%v of integers.
func (x *Exec) sprintf(f string, args []*Term) *Term {
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, Str(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, Str("%"))
			continue
		}
		if ai >= len(args) {
			return nil
		}
		a := args[ai]
		ai++
		if a.Op != "ctor" || x.w.anyGo[a.Ctor] == nil {
			return nil
		}
		t := x.w.anyGo[a.Ctor]
		if _, ok := types.Unalias(t).(*types.Basic); !ok {
			return nil
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil
		}
		switch {
		case (f[i] == 's' || f[i] == 'v') && b.Info()&types.IsString != 0:
			parts = append(parts, a.Args[0])
		case (f[i] == 'd' || f[i] == 'v') && b.Info()&types.IsInteger != 0:
			parts = append(parts, itoa(a.Args[0]))
		default:
			return nil
		}
	}
	if ai != len(args) {
		return nil
	}
	return Concat(parts...)
}
