package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Driver is a contract: a ghost function that states the precondition, calls the real
// code and states the postcondition.  A modular driver is also used in place of the
// target's body at call sites.
type Driver struct {
	Name   string
	Fn     *ssa.Function
	Props  []string
	Target string // modular target
	Opaque map[string]bool
	Tier   string
	recDec *Term
	Opts   map[string]string
}

func (x *Exec) ghostCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	one := func(v Value) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	tm := func(i int) *Term { return x.term(st, args[i], fn.Params[i].Type()) }
	strArg := func(i int) string {
		t := tm(i)
		if t.Op != "str" {
			panic(unsupported{"ghost name must be a literal"})
		}
		return t.Str
	}
	using := x.useMode != nil && fr.fn == x.useMode.d.Fn
	switch name {
	case "vRequires":
		if using {
			x.oblige(st, "pre/"+x.useMode.d.Name+"@"+shortFn(x.useMode.callerFn), "pre", tm(0), x.useMode.pos, shortFn(x.useMode.callerFn))
			return one(nil)
		}
		st.assume(tm(0))
		return one(nil)
	case "vAssume":
		st.assume(tm(0))
		return one(nil)
	case "vNote":
		if !using {
			x.assumed[strArg(0)] = true
		}
		return one(nil)
	case "vEnsures", "vAssert":
		if using {
			st.assume(tm(1))
			return one(nil)
		}
		x.oblige(st, x.driver.Name+"/"+strArg(0), "ensures", tm(1), x.posOf(in.Pos()), x.driver.Name)
		return one(nil)
	case "vCover":
		if !using && x.dry == 0 {
			x.covers = append(x.covers, &Obl{Name: x.driver.Name + "/cover/" + strArg(0), Kind: "cover", Hyps: st.pcTerms(), Goal: False, Pos: x.posOf(in.Pos())})
		}
		return one(nil)
	case "vInv":
		ic := x.inv
		if ic == nil {
			panic(unsupported{"vInv outside an invariant function"})
		}
		t := tm(1)
		if ic.mode == "assume" {
			st.assume(t)
		} else {
			x.oblige(st, ic.spec.Name+"/"+strArg(0)+"/"+ic.stage, "invariant", t, x.posOf(ic.L.head.Instrs[0].Pos()), shortFn(ic.fr.fn))
		}
		return one(nil)
	case "vDecreases":
		t := tm(0)
		if ic := x.inv; ic != nil {
			if ic.mode == "assume" {
				if ic.al != nil {
					ic.al.dec = t
				}
			} else if ic.stage == "preserved" && ic.al != nil && ic.al.dec != nil {
				x.oblige(st, ic.spec.Name+"/decreases", "termination", And(Le(Int(0), ic.al.dec), Lt(t, ic.al.dec)), "", shortFn(ic.fr.fn))
			}
			return one(nil)
		}
		if using {
			if x.useMode.d == x.driver && x.driver.recDec != nil {
				x.oblige(st, x.driver.Name+"/decreases", "termination", And(Le(Int(0), t), Lt(t, x.driver.recDec)), x.useMode.pos, shortFn(x.useMode.callerFn))
			}
			return one(nil)
		}
		x.driver.recDec = t
		return one(nil)
	case "vImp":
		return one(Imp(tm(0), tm(1)))
	case "vForall", "vExists":
		cl, ok := args[0].(*Closure)
		if !ok {
			panic(unsupported{name + " needs a function literal"})
		}
		var bvs []*Term
		var as []Value
		for _, p := range cl.Fn.Params {
			b := BVar(p.Name(), x.w.sortOf(p.Type()))
			x.w.typeFacts(p.Type(), b)
			bvs = append(bvs, b)
			as = append(as, b)
		}
		body := x.pureEval(fr, st, cl, as)
		if name == "vForall" {
			return one(Forall(bvs, body))
		}
		return one(Exists(bvs, body))
	case "vOld":
		cl, ok := args[0].(*Closure)
		if !ok {
			panic(unsupported{"vOld needs a function literal"})
		}
		s2 := st.clone()
		s2.heap = map[string]*Term{}
		s2.globals = map[string]*Term{}
		return one(x.pureEval(fr, s2, cl, nil))
	case "vCForm", "vCNPlurals": // the C meaning of a Plural-Forms header
		lit, ok := knownString(st, tm(0))
		if !ok {
			panic(unsupported{name + " of an unknown header"})
		}
		if name == "vCNPlurals" {
			np, _, err := cForm(lit, Int(0))
			if err != nil {
				panic(unsupported{err.Error()})
			}
			return one(Int(np))
		}
		_, f, err := cForm(lit, tm(1))
		if err != nil {
			panic(unsupported{err.Error()})
		}
		return one(f)
	case "vMatch": // the whole text matches a regular expression
		lit, ok := knownString(st, tm(1))
		if !ok {
			panic(unsupported{name + " of an unknown expression"})
		}
		return one(InRe(tm(0), lit))
	case "vCLDR": // does a CLDR plural rule text hold for the operands
		lit, ok := knownString(st, tm(0))
		if !ok {
			panic(unsupported{name + " of an unknown rule"})
		}
		ops := map[string]*Term{}
		for i, o := range []string{"n", "i", "v", "w", "f", "t", "c"} {
			ops[o] = tm(i + 1)
		}
		ops["e"] = ops["c"]
		r, err := cldrRule(lit, ops)
		if err != nil {
			panic(unsupported{err.Error()})
		}
		return one(r)
	case "vPre", "vEntry": // the value in the state in which the loop was entered
		cl, ok := args[0].(*Closure)
		if !ok || x.inv == nil || x.inv.entry == nil {
			panic(unsupported{"vPre needs a function literal in a loop invariant"})
		}
		s2 := st.clone()
		s2.heap = map[string]*Term{}
		for k, v := range x.inv.entry.heap {
			s2.heap[k] = v
		}
		s2.frames = x.inv.entry.frames
		s2.globals = map[string]*Term{}
		for k, v := range x.inv.entry.globals {
			s2.globals[k] = v
		}
		return one(x.pureEval(fr, s2, cl, nil))
	case "vBefore": // the value before the call (where vModifies was stated)
		cl, ok := args[0].(*Closure)
		if !ok || st.pre == nil {
			panic(unsupported{"vBefore needs a function literal and a preceding vModifies"})
		}
		s2 := st.clone()
		s2.heap = map[string]*Term{}
		for k, v := range st.pre.heap {
			s2.heap[k] = v
		}
		s2.frames = st.pre.frames
		s2.globals = map[string]*Term{}
		for k, v := range st.pre.globals {
			s2.globals[k] = v
		}
		return one(x.pureEval(fr, s2, cl, nil))
	case "vUnchanged":
		return one(x.unchanged(st))
	case "vOnlyModified": // nothing but the locations declared with vModifies was written
		return one(x.unchanged(st, x.frameLocs...))
	case "vInFrame": // the slice's elements are new or declared with vModifies
		t := args[0].(*Term)
		if t.Op != "ctor" || x.w.anyGo[t.Ctor] == nil {
			panic(unsupported{"vInFrame of a value of unknown type"})
		}
		l := x.modLocs(st, t)[0]
		c := op("<", BoolS, Ref(0), l.ref)
		for _, f := range x.frameLocs {
			if f.key == l.key {
				c = Or(c, Eq(f.ref, l.ref))
			}
		}
		return one(c)
	case "vEventCount":
		return one(Int(int64(len(st.events))))
	case "vEventArg":
		i := tm(0)
		if !i.IsInt() {
			panic(unsupported{"event index must be a literal"})
		}
		k := int(i.I.Int64())
		if k < len(st.events) && len(st.events[k].args) > 0 && st.events[k].args[0].S == x.w.anyDT.S {
			return one(st.events[k].args[0])
		}
		return one(x.w.NilAny())
	case "vEventName":
		i := tm(0)
		k := int(i.I.Int64())
		if k < len(st.events) {
			return one(Str(st.events[k].name))
		}
		return one(Str(""))
	case "vVisited":
		m, k := args[0], args[1]
		mt := m.(*Term)
		if mt.Op == "ctor" {
			mt = mt.Args[0]
		}
		kt := k.(*Term)
		if kt.Op == "ctor" && kt.Ctor.DT == x.w.anyDT {
			kt = kt.Args[0]
		}
		for id := x.cellCnt; id > 0; id-- {
			if it, ok := st.iters[id]; ok && !it.isStr && it.m == mt && it.visited.S.Idx == kt.S {
				return one(Select(it.visited, kt))
			}
		}
		return one(False)
	case "vFresh": // reference allocated during the call
		t := args[0].(*Term)
		if t.Op == "ctor" && t.Ctor.DT == x.w.anyDT {
			t = t.Args[0]
		}
		if t.S == x.w.sliceC.DT.S {
			t = x.sArr(t)
		}
		if t.S != RefS {
			panic(unsupported{"vFresh of a non-reference"})
		}
		if r, ok := refInfoOf(t); ok && r.exact {
			return one(True)
		}
		return one(op("<", BoolS, Ref(0), t))
	case "vMapDomEq": // same set of keys and same values
		a, b := args[0].(*Term), args[1].(*Term)
		ca := a.Ctor
		mt := x.w.anyGo[ca].Underlying().(*types.Map)
		dom, va, _ := x.mapArrs(st, mt)
		return one(And(Eq(Select(dom, a.Args[0]), Select(dom, b.Args[0])), Eq(Select(va, a.Args[0]), Select(va, b.Args[0]))))
	case "vSameMap": // the same map object
		a, b := args[0].(*Term), args[1].(*Term)
		return one(Eq(a.Args[0], b.Args[0]))
	case "vModifiesReaders": // the call may move readers and they may fail
		if using {
			x.useMode.readers = true
		} else {
			x.frameReaders = true
		}
		return one(nil)
	case "vReaderData":
		return one(readerData(tm(0)))
	case "vReaderPos":
		return one(x.rdGet(st, tm(0)))
	case "vReaderFailed":
		return one(x.rdFailed(st))
	case "vBytesAt":
		return one(rdAt(readerData(tm(0)), tm(1), tm(2)))
	case "vUintAt":
		bits := tm(3)
		if !bits.IsInt() {
			panic(unsupported{"size must be a literal"})
		}
		return one(rdUint(readerData(tm(0)), tm(1), tm(2), int(bits.I.Int64())))
	case "vUsing":
		return one(Bool(using))
	case "vModifies": // the only locations the call may write (objects made by the call apart)
		el, ok := x.sliceElems(st, tm(0), x.w.anyType())
		if !ok {
			panic(unsupported{"vModifies needs its locations as arguments"})
		}
		st.pre = st.clone()
		var locs []modLoc
		for _, e := range el {
			locs = append(locs, x.modLocs(st, e)...)
		}
		if using {
			x.useMode.locs = append(x.useMode.locs, locs...)
		} else {
			x.frameLocs = append(x.frameLocs, locs...)
		}
		return one(nil)
	}
	if fn.Blocks == nil && fn.Origin() == nil {
		var ts []*Term
		for i, p := range fn.Params {
			ts = append(ts, x.ufArgs(st, args[i], p.Type())...)
		}
		return []Outcome{{st, x.ufResults(st, "ghost "+fn.Name(), fn.Signature.Results(), ts)}}, true
	}
	if x.recFns[fn] {
		var ts []*Term
		for i, p := range fn.Params {
			ts = append(ts, x.term(st, args[i], p.Type()))
		}
		rt := fn.Signature.Results().At(0).Type()
		u := App("rec|"+fn.Name(), x.w.sortOf(rt), ts...)
		if x.recGround[fn] && len(freeB(u)) > 0 {
			return one(u)
		}
		if _, done := x.recDone[u]; !done || x.recDone[u] < x.recFuel {
			if x.recFuel > 0 {
				x.recDone[u] = x.recFuel
				if _, ok := refTab[u]; !ok {
					refTab[u] = refInfo{0, 0, false}
				}
				x.w.typeFacts(rt, u)
				x.recFuel--
				// the definition holds on every path: it is unfolded without this path's conditions
				s2 := st.clone()
				s2.pc = nil
				s2.heap = map[string]*Term{}
				s2.globals = map[string]*Term{}
				var as []Value
				for _, t := range ts {
					as = append(as, t)
				}
				body := x.pureFn(fr, s2, fn, as)
				x.recFuel++
				addFact(u, Eq(u, body))
			}
		}
		return one(u)
	}
	return nil, false
}

// pureEval evaluates a specification closure to a single term.
func (x *Exec) pureEval(fr *Frame, st *State, cl *Closure, args []Value) *Term {
	s2 := st.clone()
	n := len(s2.pc)
	x.specMode++
	outs := x.callFn(s2, cl.Fn, args, cl.Binds, fr, cl.Fn.Pos())
	x.specMode--
	return x.single(outs, n, cl.Fn)
}

func (x *Exec) pureFn(fr *Frame, st *State, fn *ssa.Function, args []Value) *Term {
	n := len(st.pc)
	x.specMode++
	outs := x.callFn(st, fn, args, nil, fr, fn.Pos())
	x.specMode--
	return x.single(outs, n, fn)
}

func (x *Exec) single(outs []Outcome, n int, fn *ssa.Function) *Term {
	if len(outs) == 0 {
		// no state reaches the result (the path is infeasible, or the function fails):
		// nothing is known about its value
		if r := fn.Signature.Results(); r.Len() == 1 {
			if bt, ok := r.At(0).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				return Fresh("noresult", BoolS)
			}
		}
		panic(unsupported{"specification function " + fn.Name() + " has no result"})
	}
	// combine the cases by their path conditions (they are exhaustive and exclusive)
	var res *Term
	for i := len(outs) - 1; i >= 0; i-- {
		var cs []*Term
		for _, e := range outs[i].st.pc[n:] {
			if !e.branch {
				panic(unsupported{"specification function " + fn.Name() + " relies on an assumption: " + e.t.String()})
			}
			cs = append(cs, e.t)
		}
		t, ok := outs[i].res.(*Term)
		if !ok {
			if p, isP := outs[i].res.(*Place); isP {
				t = x.term(outs[i].st, p, fn.Signature.Results().At(0).Type())
			} else if tp, isT := outs[i].res.(Tuple); isT {
				_ = tp
				panic(unsupported{"specification function " + fn.Name() + " returns several values"})
			} else {
				panic(unsupported{fmt.Sprintf("specification function %s returns %T", fn.Name(), outs[i].res)})
			}
		}
		if res == nil {
			res = t
		} else {
			res = Ite(And(cs...), t, res)
		}
	}
	return res
}

// unchanged: no object that existed before the call was written.
func (x *Exec) unchanged(st *State, except ...modLoc) *Term {
	var cs []*Term
	free := map[string][]*Term{}
	for _, l := range except {
		free[l.key] = append(free[l.key], l.ref)
	}
	exempt := func(k string, r *Term) *Term {
		c := False
		for _, e := range free[k] {
			c = Or(c, Eq(r, e))
		}
		return c
	}
	for _, k := range sortedKeys(st.heap) {
		v := st.heap[k]
		root := x.heapRoot(k, x.heapSorts[k])
		if v == root {
			continue
		}
		refs, ok := writtenRefs(v, root)
		if ok {
			for _, r := range refs {
				if ri, o := refInfoOf(r); o && ri.exact {
					continue
				}
				cs = append(cs, Or(op("<", BoolS, Ref(0), r), exempt(k, r), Eq(Select(v, r), Select(root, r))))
			}
			continue
		}
		bv := BVar("r", RefS)
		refTab[bv] = refInfo{0, 0, false}
		cs = append(cs, intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{bv}, Args: []*Term{Imp(op("<=", BoolS, bv, Ref(0)), Or(exempt(k, bv), Eq(Select(v, bv), Select(root, bv))))}}))
	}
	for _, k := range sortedKeys(st.globals) {
		if (k == rdPos || k == rdFail) && (x.driver.Target == "" || x.frameReaders) {
			continue // the state of the readers is not the library's
		}
		if x.globalsIn[k] != st.globals[k] {
			cs = append(cs, Eq(x.globalsIn[k], st.globals[k]))
		}
	}
	return And(cs...)
}

// modLoc is one row of the heap: a field, a map or the elements of a slice.
type modLoc struct {
	key    string
	ref    *Term
	typ    types.Type
	length bool
}

func (x *Exec) modLocs(st *State, e *Term) []modLoc {
	if e.Op != "ctor" || e.Ctor.DT != x.w.anyDT || x.w.anyGo[e.Ctor] == nil {
		panic(unsupported{"vModifies of a value of unknown type"})
	}
	t := x.w.anyGo[e.Ctor]
	v := e.Args[0]
	switch u := t.Underlying().(type) {
	case *types.Map:
		x.mapArrs(st, u)
		dk, vk, lk := mapKeys(u)
		return []modLoc{{dk, v, nil, false}, {vk, v, nil, false}, {lk, v, nil, true}}
	case *types.Slice:
		x.elemArr(st, u.Elem())
		return []modLoc{{"E|" + typeKey(u.Elem()), x.sArr(v), nil, false}}
	case *types.Pointer:
		p := x.deref(st, x.placeOf(x.ip(v), u.Elem()))
		switch {
		case p.kind == "heapstruct" && len(p.path) == 1 && p.path[0].idx == nil:
			_, k := x.fieldArr(st, p.root, p.path[0].field)
			return []modLoc{{k, p.ref, u.Elem(), false}}
		case p.kind == "heapcell" && len(p.path) == 0:
			k := "C|" + typeKey(p.root)
			x.heapGet(st, k, ArrS(RefS, x.w.sortOf(p.root)))
			return []modLoc{{k, p.ref, u.Elem(), false}}
		}
	}
	panic(unsupported{"vModifies of this location: " + t.String()})
}

func (x *Exec) heapRootOr(st *State, k string) *Term {
	if a, ok := st.heap[k]; ok {
		return a
	}
	return x.framedRoot(st.frames, k, x.heapSorts[k])
}

// useContract replaces a call by the callee's contract.
func (x *Exec) useContract(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, d *Driver, args []Value) []Outcome {
	saved := x.useMode
	x.useMode = &useCtx{d: d, target: fn, callerFn: fr.fn, pos: x.posOf(in.Pos())}
	defer func() { x.useMode = saved }()
	var as []Value
	for i, a := range args {
		as = append(as, x.term(st, a, fn.Params[i].Type()))
	}
	// the contract holds for every value of its additional parameters
	for _, p := range d.Fn.Params[len(args):] {
		v := Value(nil)
		for i, q := range x.driver.Fn.Params {
			if q.Name() == p.Name() && sameType(q.Type(), p.Type()) {
				v = x.inputs[i]
			}
		}
		if v == nil {
			v = x.w.freshVal(p.Name(), p.Type(), refInfo{0, 0, false})
		}
		as = append(as, v)
	}
	uc := x.useMode
	pre := st.pre
	outs := x.callFn(st, d.Fn, as, nil, fr, in.Pos())
	var res []Outcome
	for _, o := range outs {
		o.st.pre = pre
		if uc.results == nil && fn.Signature.Results().Len() > 0 {
			panic(unsupported{"contract " + d.Name + " does not call its target"})
		}
		res = append(res, Outcome{o.st, uc.results})
	}
	x.usedContracts[d.Name] = true
	return res
}

func (x *Exec) useTarget(fr *Frame, st *State, fn *ssa.Function, args []Value) []Outcome {
	uc := x.useMode
	uc.called = true
	top := st.top()
	st.newEpoch()
	x.forgetNew(st, top)
	if uc.readers {
		x.rdPosArr(st)
		x.rdFailed(st)
		st.globals[rdPos] = Fresh("rdpos", ArrS(x.w.anyDT.S, IntS))
		st.globals[rdFail] = Fresh("rdfail", BoolS)
	}
	for _, l := range uc.locs {
		a := x.heapRootOr(st, l.key)
		v := Fresh("mod", a.S.Elem)
		refTab[v] = refInfo{st.epoch, 0, false}
		if l.typ != nil {
			x.w.typeFacts(l.typ, v)
		}
		if l.length {
			st.assume(Le(Int(0), v))
		}
		st.heap[l.key] = Store(a, l.ref, v)
	}
	res := fn.Signature.Results()
	var tp Tuple
	for i := 0; i < res.Len(); i++ {
		tp = append(tp, x.w.freshVal("res_"+fn.Name(), res.At(i).Type(), refInfo{st.epoch, 0, false}))
	}
	switch len(tp) {
	case 0:
		uc.results = nil
	case 1:
		uc.results = tp[0]
	default:
		uc.results = tp
	}
	return []Outcome{{st, uc.results}}
}

func (x *Exec) globalRoot(name string, t types.Type) *Term {
	if v, ok := x.globalsIn[name]; ok {
		return v
	}
	var v *Term
	if isErrType(t) {
		// package-level error values: distinct non-nil values
		x.globalErrs++
		v = MkCtor(x.w.anyOth, Int(int64(1000+x.globalErrs)), Ref(-int64(1000+x.globalErrs)))
		x.assumed["package-level error variables keep their distinct initial values"] = true
	} else if iv := x.globalInit(name, t); iv != nil {
		v = iv
	} else {
		v = x.w.input("G|"+name, t)
	}
	x.globalsIn[name] = v
	return v
}

func isErrType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// constGlobals: package-level variables of basic type that are initialised with a constant
// and never written or addressed anywhere else in the program's repository packages.
func (w *World) constGlobals() map[string]*ssa.Const {
	if w.constGlob != nil {
		return w.constGlob
	}
	vals := map[*ssa.Global]*ssa.Const{}
	bad := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg == nil && fn.Parent() == nil && fn.Origin() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						c, isC := s.Val.(*ssa.Const)
						if !isC || fn.Name() != "init" || fn.Parent() != nil || vals[g] != nil {
							bad[g] = true
						} else {
							vals[g] = c
						}
						if g2, ok := s.Val.(*ssa.Global); ok {
							bad[g2] = true
						}
						continue
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				for _, o := range in.Operands(nil) {
					if o != nil {
						if g, ok := (*o).(*ssa.Global); ok {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	w.constGlob = map[string]*ssa.Const{}
	for g, c := range vals {
		if _, basic := g.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); basic && !bad[g] && c.Value != nil {
			w.constGlob[g.RelString(nil)] = c
		}
	}
	return w.constGlob
}

// globalInit: the value of a package-level variable that is a constant in effect.
func (x *Exec) globalInit(name string, t types.Type) *Term {
	c := x.w.constGlobals()[name]
	if c == nil {
		return nil
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 && token.IsExported(name[i+1:]) {
		x.assumed["callers do not assign to the exported variable "+name] = true
	}
	return x.term(nil, x.constVal(c), t)
}

var _ = strings.HasPrefix
