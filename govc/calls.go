package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callOperands(fr *Frame, st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		return x.val(fr, st, c.Value), args
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			return x.val(fr, st, c.Value), args
		}
		return &Closure{Fn: f}, args
	}
	return x.val(fr, st, c.Value), args
}

func (x *Exec) doCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) []Outcome {
	fv, args := x.callOperands(fr, st, c)
	return x.applyCall(fr, st, in, c, fv, args)
}

func (x *Exec) applyCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value) []Outcome {
	if b, ok := fv.(*ssa.Builtin); ok {
		return x.builtin(fr, st, in, c, b, args)
	}
	if c.IsInvoke() {
		return x.invoke(fr, st, in, c, fv, args)
	}
	return x.callValue(fr, st, in, c.Signature(), fv, args)
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, st *State, in ssa.Instruction, sig *types.Signature, fv Value, args []Value) []Outcome {
	switch f := fv.(type) {
	case *Closure:
		return x.callClosure(fr, st, in, f, args)
	case *Term:
		if c := x.w.closureOf(f); c != nil {
			return x.callClosure(fr, st, in, c, args)
		}
		if f.Op == "ite" && f.size < 200 {
			var outs []Outcome
			for k := 0; k < 2; k++ {
				s2 := st.clone()
				cc := f.Args[0]
				if k == 1 {
					cc = Not(cc)
				}
				s2.branch(cc)
				if !x.feasible(s2) {
					continue
				}
				outs = append(outs, x.callValue(fr, s2, in, sig, f.Args[1+k], args)...)
			}
			return outs
		}
		x.safety(st, fr, "nilfunc", Not(Eq(f, Ref(0))), in.Pos())
		return x.callUnknown(fr, st, in, sig, f, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fv)})
}

// callUnknown: a function value supplied by the user of the library.  It is a
// deterministic function of its arguments that does not write library state; calls
// without results are recorded as events.
func (x *Exec) callUnknown(fr *Frame, st *State, in ssa.Instruction, sig *types.Signature, f *Term, args []Value) []Outcome {
	key := typeKey(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
	ts := []*Term{f}
	for i, a := range args {
		ts = append(ts, x.ufArgs(st, a, sig.Params().At(i).Type())...)
	}
	x.assumed["function values supplied by callers ("+key+") are deterministic, terminate and do not modify library state"] = true
	if sig.Results().Len() == 0 {
		st.events = append(st.events, Event{fn: f, name: "callback", args: ts[1:]})
		return []Outcome{{st, nil}}
	}
	return []Outcome{{st, x.ufResults(st, "call "+key, sig.Results(), ts)}}
}

// ufArgs expands slices of known length into their elements, so that an uninterpreted
// function sees contents and not identities.
func (x *Exec) ufArgs(st *State, v Value, t types.Type) []*Term {
	tt := x.term(st, v, t)
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if isByte(sl.Elem()) {
			return []*Term{x.bytesContent(st, tt)}
		}
		l := x.sLen(tt)
		if l.IsInt() && l.I.Int64() == 0 {
			return []*Term{Int(0)}
		}
		row := Select(x.elemArr(st, sl.Elem()), x.sArr(tt))
		off := x.sOff(tt)
		if c, ok := x.copyOf[row]; ok && off.IsInt() && off.I.Sign() == 0 && l == c[2] {
			row, off = c[0], c[1] // a copy has the same contents
		}
		if l.IsInt() && l.I.Int64() <= 16 {
			out := []*Term{l}
			for i := int64(0); i < l.I.Int64(); i++ {
				out = append(out, Select(row, Add(x.sOff(tt), Int(i))))
			}
			return out
		}
		return []*Term{l, row, off}
	}
	return []*Term{tt}
}

func (x *Exec) ufName(base string, ts []*Term) string {
	var sb strings.Builder
	sb.WriteString("uf|" + base + "|")
	for _, t := range ts {
		if t.S == RefS {
			sb.WriteString("R,")
		} else {
			sb.WriteString(t.S.Name + ",")
		}
	}
	return sb.String()
}

func (x *Exec) ufResults(st *State, base string, res *types.Tuple, ts []*Term) Value {
	name := x.ufName(base, ts)
	mk := func(i int) *Term {
		t := res.At(i).Type()
		u := App(fmt.Sprintf("%s#%d", name, i), x.w.sortOf(t), ts...)
		if _, ok := refTab[u]; !ok {
			refTab[u] = refInfo{0, 0, false}
		}
		x.w.typeFacts(t, u)
		return u
	}
	if res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		return mk(0)
	}
	var tp Tuple
	for i := 0; i < res.Len(); i++ {
		tp = append(tp, mk(i))
	}
	return tp
}

// isWrapper: compiler-made code around a method (bound method value, promoted method): its
// parameters are not those of the method, so that it is executed and never taken for it.
func isWrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "wrapper for")
}

func fullName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if obj, ok := fn.Object().(*types.Func); ok && !isWrapper(fn) {
		return obj.FullName()
	}
	return fn.String()
}

func (x *Exec) callClosure(fr *Frame, st *State, in ssa.Instruction, c *Closure, args []Value) []Outcome {
	fn := c.Fn
	if x.ghosts[fn] || fn.Origin() != nil && x.ghosts[fn.Origin()] {
		if outs, ok := x.ghostCall(fr, st, in, fn, args); ok {
			return outs
		}
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		pkg = fn.Parent().Pkg.Pkg
	}
	if x.useMode != nil && x.useMode.target == fn && !x.useMode.called && fr.fn == x.useMode.d.Fn {
		return x.useTarget(fr, st, fn, args)
	}
	if x.driver.Opaque[fullName(fn)] {
		// a summary: deterministic, writes nothing that existed before (stated as
		// postconditions of the contracts that prove the function's meaning)
		x.usedOpaque[fullName(fn)] = true
		var ts []*Term
		for i, p := range fn.Params {
			ts = append(ts, x.ufArgs(st, args[i], p.Type())...)
		}
		return []Outcome{{st, x.ufResults(st, "opaque "+fullName(fn), fn.Signature.Results(), ts)}}
	}
	if d := x.modular[fullName(fn)]; d != nil && !x.isGhost(fr.fn) && !x.isGhost(fn) {
		return x.useContract(fr, st, in, fn, d, args)
	}
	if m, ok := models[fullName(fn)]; ok {
		return m(x, fr, st, in, fn, args)
	}
	if fn.Blocks != nil && (pkg == nil || x.w.isRepo(pkg) || inlineStd[fullName(fn)] || fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound")) {
		if x.recursive(fr, fn) && !x.isGhost(fn) {
			n := 0
			for f := fr; f != nil; f = f.caller {
				if f.fn == fn {
					n++
				}
			}
			if n >= 4 {
				panic(unsupported{"recursion without contract: " + fn.String()})
			}
		}
		return x.callFn(st, fn, args, c.Binds, fr, in.Pos())
	}
	if purePkg(pkg) || pureFn[fullName(fn)] {
		return x.pureCall(st, fn, args)
	}
	if fn.Synthetic != "" && fn.Blocks != nil {
		return x.callFn(st, fn, args, c.Binds, fr, in.Pos())
	}
	panic(unsupported{"call of external function " + fullName(fn)})
}

func (x *Exec) recursive(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) pureCall(st *State, fn *ssa.Function, args []Value) []Outcome {
	var ts []*Term
	sig := fn.Signature
	i := 0
	if sig.Recv() != nil {
		ts = append(ts, x.ufArgs(st, args[0], sig.Recv().Type())...)
		i = 1
	}
	for k := 0; k < sig.Params().Len(); k++ {
		ts = append(ts, x.ufArgs(st, args[i+k], sig.Params().At(k).Type())...)
	}
	x.assumed["external function "+fullName(fn)+" is a deterministic function of its arguments"] = true
	return []Outcome{{st, x.ufResults(st, fullName(fn), sig.Results(), ts)}}
}

func (x *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv Value, args []Value) []Outcome {
	r := x.term(st, recv, c.Value.Type())
	if r.Op == "ite" && r.size < 400 {
		var outs []Outcome
		for k := 0; k < 2; k++ {
			s2 := st.clone()
			cc := r.Args[0]
			if k == 1 {
				cc = Not(cc)
			}
			s2.branch(cc)
			if !x.feasible(s2) {
				continue
			}
			outs = append(outs, x.invoke(fr, s2, in, c, r.Args[1+k], args)...)
		}
		return outs
	}
	x.safety(st, fr, "nil-interface", Not(Is(x.w.anyNil, r)), in.Pos())
	var t types.Type
	var data *Term
	if r.Op == "ctor" && r.Ctor != x.w.anyOth && r.Ctor != x.w.anyNil {
		t = x.w.anyGo[r.Ctor]
		data = r.Args[0]
	} else {
		// known from the path condition?
		for _, p := range st.pc {
			if p.t.Op == "is" && p.t.Args[0] == r && p.t.Ctor != x.w.anyOth && p.t.Ctor != x.w.anyNil {
				t = x.w.anyGo[p.t.Ctor]
				data = Sel(p.t.Ctor, 0, r)
				x.w.typeFacts(t, data)
			}
		}
	}
	if t != nil {
		if fn := x.w.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); fn != nil {
			return x.callClosure(fr, st, in, &Closure{Fn: fn}, append([]Value{data}, args...))
		}
		panic(unsupported{"method " + c.Method.Name() + " of " + t.String()})
	}
	iname := typeKey(c.Value.Type()) + "." + c.Method.Name()
	if m, ok := ifaceModels[iname]; ok {
		return m(x, fr, st, in, r, args, c.Method.Type().(*types.Signature))
	}
	// closed interfaces of the repository: case split over the implementations
	if impls := x.closedImpls(c.Value.Type()); impls != nil {
		var outs []Outcome
		var none []*Term
		for _, it := range impls {
			ct := x.w.anyCtor(it)
			s2 := st.clone()
			s2.branch(Is(ct, r))
			none = append(none, Not(Is(ct, r)))
			if s2.dead() || !x.feasible(s2) {
				continue
			}
			outs = append(outs, x.invoke(fr, s2, in, c, MkCtor(ct, x.payload(ct, r)), args)...)
		}
		x.assumed["only the repository's own types implement "+typeKey(c.Value.Type())] = true
		return outs
	}
	sig := c.Method.Type().(*types.Signature)
	ts := []*Term{r}
	for i, a := range args {
		ts = append(ts, x.ufArgs(st, a, sig.Params().At(i).Type())...)
	}
	x.assumed["implementations of "+iname+" supplied by callers are deterministic, terminate and do not modify library state"] = true
	if sig.Results().Len() == 0 {
		st.events = append(st.events, Event{fn: Ref(0), name: iname, args: ts})
		return []Outcome{{st, nil}}
	}
	return []Outcome{{st, x.ufResults(st, iname, sig.Results(), ts)}}
}

func (x *Exec) payload(c *Ctor, r *Term) *Term {
	d := Sel(c, 0, r)
	x.w.typeFacts(x.w.anyGo[c], d)
	return d
}

// closedImpls lists the implementations of a repository interface with an unexported
// method or one listed as closed.
func (x *Exec) closedImpls(t types.Type) []types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !x.w.isRepo(n.Obj().Pkg()) || !closedIfaces[typeKey(t)] {
		return nil
	}
	it := n.Underlying().(*types.Interface)
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		if types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, types.NewPointer(tn.Type()))
		}
	}
	return out
}

func (x *Exec) doTypeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []Outcome {
	r := x.tval(fr, st, in.X)
	if types.IsInterface(in.AssertedType) {
		ok := x.implements(r, in.AssertedType)
		if in.CommaOk {
			if ok.IsTrue() {
				return []Outcome{{st, Tuple{r, True}}}
			}
			return []Outcome{{st, Tuple{Ite(ok, r, x.w.NilAny()), ok}}}
		}
		x.safety(st, fr, "typeassert", ok, in.Pos())
		return []Outcome{{st, r}}
	}
	c := x.w.anyCtor(in.AssertedType)
	ok := Is(c, r)
	if ok.IsFalse() {
		if in.CommaOk {
			return []Outcome{{st, Tuple{x.w.zero(in.AssertedType), False}}}
		}
		x.safety(st, fr, "typeassert", ok, in.Pos())
		return nil
	}
	d := Sel(c, 0, r)
	if d.Op == "sel" {
		if _, known := refTab[d]; !known {
			if e, has := rootEpoch(r); has {
				_ = e
			}
		}
		x.w.typeFacts(in.AssertedType, d)
	}
	if in.CommaOk {
		v := d
		if !ok.IsTrue() {
			v = Ite(ok, d, x.w.zero(in.AssertedType))
		}
		return []Outcome{{st, Tuple{v, ok}}}
	}
	x.safety(st, fr, "typeassert", ok, in.Pos())
	return []Outcome{{st, d}}
}

func (x *Exec) implements(r *Term, it types.Type) *Term {
	if r.Op == "ctor" {
		if r.Ctor == x.w.anyNil {
			return False
		}
		if t := x.w.anyGo[r.Ctor]; t != nil {
			return Bool(types.Implements(t, it.Underlying().(*types.Interface)))
		}
	}
	if r.Op == "ite" {
		return Ite(r.Args[0], x.implements(r.Args[1], it), x.implements(r.Args[2], it))
	}
	k := "impl|" + typeKey(it)
	x.w.implTab[k] = it
	u := App(k, BoolS, r)
	addFact(u, Imp(u, Not(Is(x.w.anyNil, r))))
	return u
}

// ------------------------------------------------------------------ ranges

func (x *Exec) mkRange(fr *Frame, st *State, in *ssa.Range) Value {
	x.cellCnt++
	id := x.cellCnt
	it := &IterState{ssaIt: in}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Map:
		it.m = x.tval(fr, st, in.X)
		it.kt, it.vt = u.Key(), u.Elem()
		it.visited = ConstArr(ArrS(x.w.sortOf(u.Key()), BoolS), False)
		dom, _, _ := x.mapArrs(st, u)
		it.dom = Select(dom, it.m)
		if it.m == Ref(0) {
			it.dom = it.visited
		}
	default:
		it.isStr = true
		it.str = x.tval(fr, st, in.X)
		it.pos = Int(0)
	}
	st.iters[id] = it
	return id
}

func (x *Exec) doNext(fr *Frame, st *State, in *ssa.Next) []Outcome {
	id := x.val(fr, st, in.Iter).(int)
	it := st.iters[id]
	if it.isStr {
		more := Lt(it.pos, StrLen(it.str))
		var outs []Outcome
		s2 := st.clone()
		s2.branch(more)
		if !s2.dead() && x.feasible(s2) {
			i2 := s2.iters[id]
			r, n := x.decodeRune(it.str, it.pos)
			i2.pos = Add(it.pos, n)
			outs = append(outs, Outcome{s2, Tuple{True, it.pos, r}})
		}
		s3 := st.clone()
		s3.branch(Not(more))
		if !s3.dead() && x.feasible(s3) {
			outs = append(outs, Outcome{s3, Tuple{False, Int(0), Int(0)}})
		}
		return outs
	}
	mt := types.NewMap(it.kt, it.vt)
	ks := x.w.sortOf(it.kt)
	dom, _, _ := x.mapArrs(st, mt)
	cur := Select(dom, it.m)
	if it.m != Ref(0) && cur != it.dom {
		// the iteration is modelled for maps that the loop does not modify
		x.oblige(st, "iteration/map-unmodified@"+shortFn(fr.fn), "iteration", Eq(cur, it.dom), x.posOf(in.Pos()), shortFn(fr.fn))
		st.assume(Eq(cur, it.dom))
	}
	var outs []Outcome
	// another key
	s2 := st.clone()
	k := Fresh("key", ks)
	refTab[k] = refInfo{st.epoch, st.off, false}
	if e, ok := rootEpoch(it.dom); ok {
		refTab[k] = e
	}
	x.w.typeFacts(it.kt, k)
	has := Select(it.dom, k)
	if it.m != Ref(0) {
		addFact(k, Imp(Eq(it.m, Ref(0)), Not(has)))
	}
	s2.branch(And(has, Not(Select(it.visited, k))))
	if !s2.dead() && x.feasible(s2) {
		v, _ := x.mapGet(s2, it.m, mt, k)
		i2 := s2.iters[id]
		i2.visited = Store(it.visited, k, True)
		outs = append(outs, Outcome{s2, Tuple{True, k, v}})
	}
	// done
	s3 := st.clone()
	bv := BVar("k", ks)
	if it.visited.Op == "constarr" && it.dom.Op == "constarr" {
		s3.branch(Bool(it.dom.Args[0].IsFalse()))
	} else if lit := storeKeys(it.dom); lit != nil {
		var cs []*Term
		for _, kk := range lit {
			cs = append(cs, Imp(Select(it.dom, kk), Select(it.visited, kk)))
		}
		s3.branch(And(cs...))
	} else {
		s3.branch(intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{bv}, Args: []*Term{Imp(op("select", BoolS, it.dom, bv), op("select", BoolS, it.visited, bv))}}))
	}
	if !s3.dead() && x.feasible(s3) {
		outs = append(outs, Outcome{s3, Tuple{False, x.w.zero(it.kt), x.w.zero(it.vt)}})
	}
	return outs
}

// storeKeys: keys of a finite map literal, nil if not of that form.
func storeKeys(a *Term) []*Term {
	var out []*Term
	for a.Op == "store" {
		out = append(out, a.Args[1])
		a = a.Args[0]
	}
	if a.Op == "constarr" && a.Args[0].IsFalse() {
		if out == nil {
			out = []*Term{}
		}
		return out
	}
	return nil
}

// decodeRune: the rune at byte position pos and its width (partial axioms: exact on
// ASCII, ranges otherwise).
func (x *Exec) decodeRune(s, pos *Term) (r, n *Term) {
	if s.Op == "str" && pos.IsInt() {
		for i, c := range s.Str {
			if int64(i) == pos.I.Int64() {
				w := len(string(c))
				if c == 0xFFFD && !strings.HasPrefix(s.Str[i:], "\uFFFD") {
					w = 1
				}
				return Int(int64(c)), Int(int64(w))
			}
		}
	}
	c := CharAt(s, pos)
	ur := App("utf8_rune", IntS, s, pos)
	un := App("utf8_width", IntS, s, pos)
	if _, ok := bndTab[ur]; !ok {
		setBounds(ur, big.NewInt(128), big.NewInt(0x10FFFF))
		setBounds(un, big.NewInt(1), big.NewInt(4))
		addFact(un, Le(Add(pos, un), StrLen(s)))
		addFact(ur, Imp(Not(Eq(ur, Int(0xFFFD))), Le(Int(2), un)))
	}
	return Ite(Lt(c, Int(128)), c, ur), Ite(Lt(c, Int(128)), Int(1), un)
}

// ------------------------------------------------------------------ builtins

func (x *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin, args []Value) []Outcome {
	one := func(v Value) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "len":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return one(StrLen(x.term(st, args[0], t)))
		case *types.Slice:
			return one(x.sLen(x.term(st, args[0], t)))
		case *types.Map:
			m := x.term(st, args[0], t)
			if m == Ref(0) {
				return one(Int(0))
			}
			return one(x.mapLen(st, m, u))
		case *types.Array:
			return one(Int(u.Len()))
		case *types.Pointer:
			return one(Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		return one(x.sCap(x.term(st, args[0], c.Args[0].Type())))
	case "append":
		s := x.term(st, args[0], c.Args[0].Type())
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return x.appendBytes(st, s, x.term(st, args[1], c.Args[1].Type()))
		}
		t := x.term(st, args[1], c.Args[1].Type())
		if isByte(et) {
			return x.appendBytes(st, s, x.bytesContent(st, t))
		}
		if el, ok := x.sliceElems(st, t, et); ok {
			return x.appendVals(st, s, et, el)
		}
		return x.appendSlice(st, s, t, et)
	case "copy":
		d := x.term(st, args[0], c.Args[0].Type())
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isByte(et) {
			var src *Term
			if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				src = x.term(st, args[1], c.Args[1].Type())
			} else {
				src = x.bytesContent(st, x.term(st, args[1], c.Args[1].Type()))
			}
			n := Ite(Le(StrLen(src), x.sLen(d)), StrLen(src), x.sLen(d))
			bb := x.bytesArr(st)
			old := Select(bb, x.sArr(d))
			end := Add(x.sOff(d), n)
			st.heap["B"] = Store(bb, x.sArr(d), Concat(Substr(old, Int(0), x.sOff(d)), Substr(src, Int(0), n), Substr(old, end, Sub(StrLen(old), end))))
			return one(n)
		}
		s := x.term(st, args[1], c.Args[1].Type())
		n := Ite(Le(x.sLen(s), x.sLen(d)), x.sLen(s), x.sLen(d))
		key := "E|" + typeKey(et)
		a := x.elemArr(st, et)
		srow, drow := Select(a, x.sArr(s)), Select(a, x.sArr(d))
		r := Fresh("row", a.S.Elem)
		refTab[r] = st.top()
		bv := BVar("i", IntS)
		st.assume(Forall([]*Term{bv}, Eq(op("select", a.S.Elem.Elem, r, bv),
			Ite(And(Le(x.sOff(d), bv), Lt(bv, Add(x.sOff(d), n))), Select(srow, Add(x.sOff(s), Sub(bv, x.sOff(d)))), Select(drow, bv)))))
		st.heap[key] = Store(a, x.sArr(d), r)
		return one(n)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, x.term(st, args[0], c.Args[0].Type()), mt, x.term(st, args[1], c.Args[1].Type()))
		return one(nil)
	case "min", "max":
		r := x.term(st, args[0], c.Args[0].Type())
		for i := 1; i < len(args); i++ {
			y := x.term(st, args[i], c.Args[i].Type())
			if r.S == StrS {
				panic(unsupported{"min/max on strings"})
			}
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(y, r), r, y)
			}
		}
		return one(r)
	case "ssa:deferstack":
		return one(Int(0))
	case "ssa:wrapnilchk":
		x.nilCheck(st, fr, args[0], in.Pos())
		return one(args[0])
	case "recover":
		return one(x.w.NilAny())
	case "print", "println":
		return one(nil)
	}
	panic(unsupported{"builtin " + b.Name()})
}

// appendSlice: append(s, t...) with len(t) unknown.
func (x *Exec) appendSlice(st *State, s, t *Term, et types.Type) []Outcome {
	key := "E|" + typeKey(et)
	n := x.sLen(t)
	var outs []Outcome
	nl := Add(x.sLen(s), n)
	fits := Le(nl, x.sCap(s))
	bv := func() *Term { return BVar("i", IntS) }
	if !fits.IsFalse() {
		s2 := st.clone()
		s2.branch(fits)
		if !s2.dead() && x.feasible(s2) {
			a := x.elemArr(s2, et)
			row := Select(a, x.sArr(s))
			trow := Select(a, x.sArr(t))
			r := Fresh("row", row.S)
			refTab[r] = s2.top()
			i := bv()
			start := Add(x.sOff(s), x.sLen(s))
			s2.assume(Forall([]*Term{i}, Eq(op("select", row.S.Elem, r, i), Ite(And(Le(start, i), Lt(i, Add(start, n))), Select(trow, Add(x.sOff(t), Sub(i, start))), Select(row, i)))))
			s2.heap[key] = Store(a, x.sArr(s), r)
			outs = append(outs, Outcome{s2, x.mkSlice(x.sArr(s), x.sOff(s), nl, x.sCap(s))})
		}
	}
	if !fits.IsTrue() {
		s2 := st.clone()
		s2.branch(Not(fits))
		if !s2.dead() && x.feasible(s2) {
			a := x.elemArr(s2, et)
			row := Select(a, x.sArr(s))
			trow := Select(a, x.sArr(t))
			arr := s2.alloc()
			r := Fresh("row", row.S)
			refTab[r] = s2.top()
			i := bv()
			s2.assume(Forall([]*Term{i}, Eq(op("select", row.S.Elem, r, i), Ite(Lt(i, x.sLen(s)), Select(row, Add(x.sOff(s), i)), Select(trow, Add(x.sOff(t), Sub(i, x.sLen(s))))))))
			s2.heap[key] = Store(a, arr, r)
			if l0 := x.sLen(s); l0.IsInt() && l0.I.Sign() == 0 {
				x.copyOf[r] = [3]*Term{trow, x.sOff(t), n}
			}
			outs = append(outs, Outcome{s2, x.mkSlice(arr, Int(0), nl, x.freshCap(s2, nl))})
		}
	}
	return outs
}

func (x *Exec) unsup(st *State, fr *Frame, msg string) {
	panic(unsupported{msg + " in " + shortFn(fr.fn)})
}

var _ = token.NoPos
