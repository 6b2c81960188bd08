package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Files read through io.ReadSeeker. A reader stands for a fixed content (readerData) and a
// position; every operation may fail, which the ghost variable reader.failed remembers. The
// contracts below are those of io.Reader, io.Seeker, io.ReadFull and encoding/binary.Read.

const (
	rdPos  = "reader.pos"
	rdFail = "reader.failed"
)

func (x *Exec) ghostGlobal(st *State, name string, s *Sort) *Term {
	if v, ok := st.globals[name]; ok {
		return v
	}
	v, ok := x.globalsIn[name]
	if !ok {
		v = Var("G|"+name, s)
		x.globalsIn[name] = v
	}
	return v
}

func (x *Exec) rdPosArr(st *State) *Term {
	return x.ghostGlobal(st, rdPos, ArrS(x.w.anyDT.S, IntS))
}
func (x *Exec) rdFailed(st *State) *Term { return x.ghostGlobal(st, rdFail, BoolS) }

func readerData(r *Term) *Term {
	u := App("readerData", StrS, r)
	addFact(u, Le(StrLen(u), BigInt(new(big.Int).Lsh(big.NewInt(1), 62))))
	return u
}

// rdAt: the n bytes at position p.
func rdAt(d, p, n *Term) *Term {
	u := App("bytesAt", StrS, d, p, n)
	if len(freeB(u)) > 0 {
		return u
	}
	addFact(u, Imp(And(Le(Int(0), n), Le(Int(0), p), Le(Add(p, n), StrLen(d))), Eq(StrLen(u), n)))
	addFact(u, Imp(Eq(n, Int(0)), Eq(u, Str(""))))
	return u
}

// rdUint: the unsigned number of the given size at position p.
func rdUint(d, p, big_ *Term, bits int) *Term {
	u := App("uintAt", IntS, d, p, big_, Int(int64(bits)))
	hi := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	setBounds(u, new(big.Int), hi.Sub(hi, big.NewInt(1)))
	return u
}

func (x *Exec) rdGet(st *State, r *Term) *Term { return Select(x.rdPosArr(st), r) }
func (x *Exec) rdSet(st *State, r, p *Term) {
	st.globals[rdPos] = Store(x.rdPosArr(st), r, p)
}

// rdBroken: the outcome in which an operation fails, because of the underlying reader
// unless works.
func (x *Exec) rdBroken(st *State, r, works *Term) *Term {
	st.globals[rdFail] = Or(x.rdFailed(st), Not(works))
	x.rdPosArr(st)
	p := Fresh("rdpos", IntS)
	st.assume(Le(Int(0), p))
	x.rdSet(st, r, p)
	return newError(x, st, 991)
}

func (x *Exec) rdNote() {
	x.assumed["readers supplied by callers deliver a fixed content and honour the contracts of io.Reader and io.Seeker (any operation may fail)"] = true
}

func (x *Exec) branchOn(st *State, c *Term, f func(st *State) []Outcome) []Outcome {
	s2 := st.clone()
	s2.branch(c)
	if s2.dead() || !x.feasible(s2) {
		return nil
	}
	return f(s2)
}

// readFull reads n bytes or fails: then gets the content, the error is nil.
func (x *Exec) readFull(st *State, r, n *Term, done func(st *State, at *Term) Value, fail func(st *State, err *Term) Value) []Outcome {
	x.rdNote()
	d := readerData(r)
	at := x.rdGet(st, r)
	fits := Or(Eq(n, Int(0)), Le(Add(at, n), StrLen(d)))
	works := Fresh("readok", BoolS)
	var outs []Outcome
	outs = append(outs, x.branchOn(st, And(works, fits), func(st *State) []Outcome {
		x.rdSet(st, r, Add(at, n))
		return []Outcome{{st, done(st, at)}}
	})...)
	outs = append(outs, x.branchOn(st, Not(And(works, fits)), func(st *State) []Outcome {
		e := x.rdBroken(st, r, works)
		return []Outcome{{st, fail(st, e)}}
	})...)
	return outs
}

func (x *Exec) rdSeek(st *State, r *Term, args []Value) []Outcome {
	x.rdNote()
	off, wh := args[0].(*Term), args[1].(*Term)
	var p *Term
	switch {
	case wh == Int(0):
		p = off
	case wh == Int(1):
		p = Add(x.rdGet(st, r), off)
	case wh == Int(2):
		p = Add(StrLen(readerData(r)), off)
	default:
		panic(unsupported{"Seek with an unknown origin"})
	}
	works := Fresh("seekok", BoolS)
	neg := Lt(p, Int(0))
	var outs []Outcome
	outs = append(outs, x.branchOn(st, And(works, Not(neg)), func(st *State) []Outcome {
		x.rdSet(st, r, p)
		return []Outcome{{st, Tuple{p, x.w.NilAny()}}}
	})...)
	outs = append(outs, x.branchOn(st, Not(And(works, Not(neg))), func(st *State) []Outcome {
		e := x.rdBroken(st, r, works)
		return []Outcome{{st, Tuple{Int(0), e}}}
	})...)
	return outs
}

// rdRead: Read may deliver fewer bytes than asked for.
func (x *Exec) rdRead(st *State, r *Term, buf *Term) []Outcome {
	x.rdNote()
	d := readerData(r)
	at := x.rdGet(st, r)
	n := x.sLen(buf)
	k := Fresh("nread", IntS)
	setBounds(k, new(big.Int), maxLen)
	st.assume(Le(k, n))
	st.assume(Or(Eq(k, Int(0)), Le(Add(at, k), StrLen(d))))
	var outs []Outcome
	set := func(st *State) {
		x.setBytes(st, buf, k, rdAt(d, at, k))
		x.rdSet(st, r, Add(at, k))
	}
	// progress or the end
	outs = append(outs, x.branchOn(st, Or(Lt(at, StrLen(d)), Eq(n, Int(0))), func(st *State) []Outcome {
		set(st)
		return []Outcome{{st, Tuple{k, x.w.NilAny()}}}
	})...)
	outs = append(outs, x.branchOn(st, Le(StrLen(d), Add(at, k)), func(st *State) []Outcome {
		set(st)
		return []Outcome{{st, Tuple{k, newError(x, st, 990)}}}
	})...)
	outs = append(outs, func() []Outcome {
		s2 := st.clone()
		set(s2)
		e := x.rdBroken(s2, r, False)
		return []Outcome{{s2, Tuple{k, e}}}
	}()...)
	return outs
}

// setBytes stores k bytes at the start of a byte slice.
func (x *Exec) setBytes(st *State, s, k, c *Term) {
	b := x.bytesArr(st)
	row := Select(b, x.sArr(s))
	off := x.sOff(s)
	end := Add(off, k)
	var n *Term
	if off == Int(0) && k == x.sLen(s) && k == x.sCap(s) {
		n = c
	} else {
		n = Concat(Substr(row, Int(0), off), c, Substr(row, end, Sub(StrLen(row), end)))
	}
	st.heap["B"] = Store(b, x.sArr(s), n)
}

func uintBits(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 8
		case types.Uint16:
			return 16
		case types.Uint32:
			return 32
		case types.Uint64:
			return 64
		}
	}
	panic(unsupported{"encoding/binary of " + t.String()})
}

func (x *Exec) isBigEndian(o *Term) *Term {
	switch o.Op {
	case "ite":
		return Ite(o.Args[0], x.isBigEndian(o.Args[1]), x.isBigEndian(o.Args[2]))
	case "ctor":
		if t := x.w.anyGo[o.Ctor]; t != nil {
			switch typeKey(t) {
			case "encoding/binary.bigEndian":
				return True
			case "encoding/binary.littleEndian":
				return False
			}
		}
		panic(unsupported{"byte order of unknown type"})
	}
	if c, ok := x.w.anyT["encoding/binary.bigEndian"]; ok {
		return Is(c, o)
	}
	panic(unsupported{"unknown byte order"})
}

func init() {
	for _, n := range []string{"io.ReadSeeker", "io.Seeker"} {
		ifaceModels[n+".Seek"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, r *Term, args []Value, sig *types.Signature) []Outcome {
			return x.rdSeek(st, r, args)
		}
	}
	for _, n := range []string{"io.ReadSeeker", "io.Reader"} {
		ifaceModels[n+".Read"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, r *Term, args []Value, sig *types.Signature) []Outcome {
			return x.rdRead(st, r, args[0].(*Term))
		}
	}
	models["io.ReadFull"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		r, buf := args[0].(*Term), args[1].(*Term)
		n := x.sLen(buf)
		return x.readFull(st, r, n, func(st *State, at *Term) Value {
			x.setBytes(st, buf, n, rdAt(readerData(r), at, n))
			return Tuple{n, x.w.NilAny()}
		}, func(st *State, err *Term) Value {
			k := Fresh("nread", IntS)
			setBounds(k, new(big.Int), maxLen)
			c := Fresh("partial", StrS)
			st.assume(Eq(StrLen(c), n))
			x.setBytes(st, buf, n, c)
			return Tuple{k, err}
		})
	}
	models["encoding/binary.Read"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		r, order, data := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if data.Op != "ctor" || x.w.anyGo[data.Ctor] == nil {
			panic(unsupported{"binary.Read into a value of unknown type"})
		}
		pt, ok := x.w.anyGo[data.Ctor].Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"binary.Read into " + x.w.anyGo[data.Ctor].String()})
		}
		x.assumed["standard library contract of encoding/binary.Read"] = true
		be := x.isBigEndian(order)
		p := x.placeOf(x.ip(data.Args[0]), pt.Elem())
		size := 0
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				size += uintBits(s.Field(i).Type()) / 8
			}
		} else {
			size = uintBits(pt.Elem()) / 8
		}
		return x.readFull(st, r, Int(int64(size)), func(st *State, at *Term) Value {
			d := readerData(r)
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				o := 0
				for i := 0; i < s.NumFields(); i++ {
					bits := uintBits(s.Field(i).Type())
					if s.Field(i).Name() != "_" {
						x.store(st, p.sub(step{t: pt.Elem(), field: i}), rdUint(d, Add(at, Int(int64(o))), be, bits))
					}
					o += bits / 8
				}
			} else {
				x.store(st, p, rdUint(d, at, be, size*8))
			}
			return x.w.NilAny()
		}, func(st *State, err *Term) Value { return err })
	}
	models["strings.Split"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) []Outcome {
		outs := x.pureCall(st, fn, args)
		a := x.argTerms(st, fn, args)
		for _, o := range outs {
			s := o.res.(*Term)
			addFact(s, Imp(Lt(Int(0), StrLen(a[1])), Le(Int(1), x.sLen(s))))
		}
		return outs
	}
}
