package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the text functions of the standard library, as contracts over byte strings.

const reDecimal = `[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)`

func reClass(cut string) string {
	re := "["
	for i := 0; i < len(cut); i++ {
		re += "\\x" + string("0123456789abcdef"[cut[i]>>4]) + string("0123456789abcdef"[cut[i]&15])
	}
	return re + "]"
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// parseDec: strconv.ParseInt(s, 10, bits) as value and success.
func parseDec(s *Term, bits int) (val, ok *Term) {
	toInt := func(t *Term) *Term {
		u := op("str.to_int", IntS, t)
		setBounds(u, big.NewInt(-1), nil)
		return u
	}
	rest := Substr(s, Int(1), Sub(StrLen(s), Int(1)))
	neg := InRe(s, `-[0-9]+`)
	signed := Or(neg, InRe(s, `\+[0-9]+`))
	hi := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	lo := new(big.Int).Neg(hi)
	hi = new(big.Int).Sub(hi, big.NewInt(1))
	abs := Ite(signed, toInt(rest), toInt(s))
	v := Ite(neg, Neg(abs), abs)
	ok = And(InRe(s, `[+-]?[0-9]+`), Le(BigInt(lo), v), Le(v, BigInt(hi)))
	return v, ok
}

func trimModel(left, right bool) model {
	return func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		a := x.argTerms(st, fn, args)
		cut, ok := knownString(st, a[1])
		if !ok || !isASCII(cut) || cut == "" {
			return x.pureCall(st, fn, args)
		}
		x.assumed["standard library contract of "+fullName(fn)] = true
		cls := reClass(cut)
		outs := []Outcome{{st, a[0]}}
		if left {
			outs = x.trimSide(outs, cut, cls, true)
		}
		if right {
			outs = x.trimSide(outs, cut, cls, false)
		}
		return outs
	}
}

// trimSide: the text without its longest prefix (suffix) over the cut set. The cases in which
// the cut falls between two parts of a concatenation come first.
func (x *Exec) trimSide(in []Outcome, cut, cls string, left bool) []Outcome {
	var outs []Outcome
	for _, o := range in {
		st, s := o.st, o.res.(*Term)
		if s.Op == "str" {
			if left {
				outs = append(outs, Outcome{st, Str(strings.TrimLeft(s.Str, cut))})
			} else {
				outs = append(outs, Outcome{st, Str(strings.TrimRight(s.Str, cut))})
			}
			continue
		}
		parts := []*Term{s}
		if s.Op == "str.++" {
			parts = s.Args
		}
		starts := func(t *Term) *Term { return startsWith(t, cls) }
		ends := func(t *Term) *Term { return endsWith(t, cls) }
		rest := st
		for k := 0; k <= len(parts) && rest != nil; k++ {
			pre, suf := Concat(parts[:k]...), Concat(parts[k:]...)
			var cond, r *Term
			if left {
				cond, r = And(InRe(pre, cls+"*"), Not(starts(suf))), suf
			} else {
				cond, r = And(InRe(suf, cls+"*"), Not(ends(pre))), pre
			}
			s2 := rest.clone()
			s2.branch(cond)
			if !s2.dead() && x.feasible(s2) {
				outs = append(outs, Outcome{s2, r})
			}
			s3 := rest.clone()
			s3.branch(Not(cond))
			if s3.dead() || !x.feasible(s3) {
				rest = nil
			} else {
				rest = s3
			}
		}
		if rest == nil {
			continue
		}
		name := "TrimRight"
		if left {
			name = "TrimLeft"
		}
		u, p := App(name, StrS, s, Str(cut)), App(name+".cut", StrS, s, Str(cut))
		if left {
			addFact(u, And(Eq(s, Concat(p, u)), InRe(p, cls+"*"), Not(InRe(u, cls+`[\x00-\xff]*`)), Le(StrLen(u), StrLen(s))))
		} else {
			addFact(u, And(Eq(s, Concat(u, p)), InRe(p, cls+"*"), Not(InRe(u, `[\x00-\xff]*`+cls)), Le(StrLen(u), StrLen(s))))
		}
		outs = append(outs, Outcome{rest, u})
	}
	return outs
}

func init() {
	parseInt := func(bitsOf func(a []*Term) (int, bool)) model {
		return func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			a := x.argTerms(st, fn, args)
			bits, ok := bitsOf(a)
			if !ok {
				return x.pureCall(st, fn, args)
			}
			x.assumed["standard library contract of "+fullName(fn)] = true
			v, good := parseDec(a[0], bits)
			other := App("ParseInt.bad", IntS, a[0])
			lo, hi, _, _, _ := intRange(types.Typ[types.Int64])
			setBounds(other, lo, hi)
			return x.okErr(st, good, v, other)
		}
	}
	models["strconv.ParseInt"] = parseInt(func(a []*Term) (int, bool) {
		if a[1] == Int(10) && a[2].IsInt() {
			b := int(a[2].I.Int64())
			if b == 0 {
				b = 64
			}
			return b, true
		}
		return 0, false
	})
	models["strconv.Atoi"] = parseInt(func(a []*Term) (int, bool) { return 64, true })
	models["strconv.ParseFloat"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		a := x.argTerms(st, fn, args)
		x.assumed["standard library contract of strconv.ParseFloat (floating-point numbers as real numbers)"] = true
		s := a[0]
		v := App("ParseFloat", RealS, s)
		ok := App("ParseFloat.ok", BoolS, s)
		dec := InRe(s, reDecimal)
		addFact(v, Imp(Not(startsWith(s, "-")), Le(realZero, v)))
		addFact(v, Imp(InRe(s, "[0-9]+"), Eq(v, op("to_real", RealS, op("str.to_int", IntS, s)))))
		addFact(ok, Imp(And(dec, Le(StrLen(s), Int(300))), ok))
		return x.okErr(st, ok, v, v)
	}
	special := func(name string) model {
		return func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
			a := x.argTerms(st, fn, args)
			x.assumed["floating-point numbers are finite, except those parsed from texts"] = true
			if a[0].Op == "app" && a[0].Name == "ParseFloat" {
				s := a[0].Args[0]
				u := App("ParseFloat."+name, BoolS, s)
				addFact(u, Imp(u, Not(InRe(s, reDecimal))))
				return ret(st, u)
			}
			return ret(st, False)
		}
	}
	models["math.IsNaN"] = special("nan")
	models["math.IsInf"] = special("inf")
	models["strconv.FormatFloat"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		a := x.argTerms(st, fn, args)
		x.assumed["standard library contract of strconv.FormatFloat (finite numbers)"] = true
		u := App("FormatFloat", StrS, a...)
		addFact(u, Imp(And(Eq(a[1], Int('f')), Eq(a[2], Int(-1))), InRe(u, `-?[0-9]+(\.[0-9]+)?`)))
		return ret(st, u)
	}
	models["strings.Cut"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		a := x.argTerms(st, fn, args)
		x.assumed["standard library contract of strings.Cut"] = true
		s, sep := a[0], a[1]
		i := op("str.indexof", IntS, s, sep, Int(0))
		setBounds(i, big.NewInt(-1), maxLen)
		addFact(i, And(Le(Int(-1), i), Le(i, StrLen(s))))
		var outs []Outcome
		if s.Op == "str.++" && sep.Op == "str" && len(sep.Str) == 1 {
			// the first separator may be one between the parts
			for k, part := range s.Args {
				if part.Op != "str" || !strings.Contains(part.Str, sep.Str) {
					continue
				}
				b, f, _ := strings.Cut(part.Str, sep.Str)
				pre := Concat(append(append([]*Term{}, s.Args[:k]...), Str(b))...)
				suf := Concat(append([]*Term{Str(f)}, s.Args[k+1:]...)...)
				var none []*Term
				for _, q := range s.Args[:k] {
					none = append(none, Not(contains(q, sep)))
				}
				cond := And(none...)
				s2 := st.clone()
				s2.branch(cond)
				if !s2.dead() && x.feasible(s2) {
					outs = append(outs, Outcome{s2, Tuple{pre, suf, True}})
				}
				st = st.clone()
				st.branch(Not(cond))
				if st.dead() || !x.feasible(st) {
					return outs
				}
				break
			}
		}
		has := contains(s, sep)
		s2 := st.clone()
		s2.branch(has)
		if !s2.dead() && x.feasible(s2) {
			b := Substr(s, Int(0), i)
			at := Add(i, StrLen(sep))
			outs = append(outs, Outcome{s2, Tuple{b, Substr(s, at, Sub(StrLen(s), at)), True}})
		}
		s3 := st.clone()
		s3.branch(Not(has))
		if !s3.dead() && x.feasible(s3) {
			outs = append(outs, Outcome{s3, Tuple{s, Str(""), False}})
		}
		return outs
	}
	models["strings.ContainsAny"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		a := x.argTerms(st, fn, args)
		cut, ok := knownString(st, a[1])
		if !ok || !isASCII(cut) {
			return x.pureCall(st, fn, args)
		}
		x.assumed["standard library contract of strings.ContainsAny"] = true
		var cs []*Term
		for i := 0; i < len(cut); i++ {
			cs = append(cs, contains(a[0], Str(cut[i:i+1])))
		}
		return ret(st, Or(cs...))
	}
	models["strings.TrimLeft"] = trimModel(true, false)
	models["strings.TrimRight"] = trimModel(false, true)
	models["strings.Trim"] = trimModel(true, true)
}

// startsWith: the first byte is of the class.
func startsWith(t *Term, cls string) *Term {
	parts := []*Term{t}
	if t.Op == "str.++" {
		parts = t.Args
	}
	r, empty := False, True
	for _, p := range parts {
		r = Or(r, And(empty, InRe(p, cls+`[\x00-\xff]*`)))
		if p.Op == "str" {
			break
		}
		empty = And(empty, Eq(p, Str("")))
	}
	return r
}

// endsWith: the last byte is of the class.
func endsWith(t *Term, cls string) *Term {
	parts := []*Term{t}
	if t.Op == "str.++" {
		parts = t.Args
	}
	r, empty := False, True
	for i := len(parts) - 1; i >= 0; i-- {
		p := parts[i]
		r = Or(r, And(empty, InRe(p, `[\x00-\xff]*`+cls)))
		if p.Op == "str" {
			break
		}
		empty = And(empty, Eq(p, Str("")))
	}
	return r
}

// contains splits over concatenations for a single byte.
func contains(s, sep *Term) *Term {
	if sep.Op == "str" && len(sep.Str) == 1 && isASCII(sep.Str) {
		parts := []*Term{s}
		if s.Op == "str.++" {
			parts = s.Args
		}
		var cs []*Term
		for _, p := range parts {
			cs = append(cs, InRe(p, `[\x00-\xff]*`+reClass(sep.Str)+`[\x00-\xff]*`))
		}
		return Or(cs...)
	}
	return strOp("str.contains", BoolS, s, sep)
}

// okErr: (v, nil) when ok, else (bad, some error).
func (x *Exec) okErr(st *State, ok, v, bad *Term) []Outcome {
	var outs []Outcome
	s2 := st.clone()
	s2.branch(ok)
	if !s2.dead() && x.feasible(s2) {
		outs = append(outs, Outcome{s2, Tuple{v, x.w.NilAny()}})
	}
	s3 := st.clone()
	s3.branch(Not(ok))
	if !s3.dead() && x.feasible(s3) {
		outs = append(outs, Outcome{s3, Tuple{bad, newError(x, s3, 77)}})
	}
	return outs
}
