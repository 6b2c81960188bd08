package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	Kind   string
	Fn     string
	Pos    string
	Hyps   []*Term
	Goal   *Term
	Trace  []string
	Result string // "unsat" discharged, "sat", "unknown"
	By     string
	Secs   float64
	Model  string
	Note   string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	at   ssa.Instruction
}

type activeLoop struct {
	spec   *LoopSpec
	count  int
	dec    *Term
	states []*State
	dry    bool
	backs  []*State
	entry  *State
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	args   []Value
	binds  []Value
	defers []deferred
	active map[*ssa.BasicBlock]*activeLoop
	caller *Frame
	depth  int
	limit  map[*ssa.BasicBlock]bool // dry run: blocks of the loop
	ghost  bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = cloneMap(f.regs)
	n.defers = append([]deferred{}, f.defers...)
	n.active = make(map[*ssa.BasicBlock]*activeLoop, len(f.active))
	for k, v := range f.active {
		c := *v
		n.active[k] = &c
		if v.dry {
			n.active[k] = v // shared accumulator
		}
	}
	return &n
}

const (
	flRet = iota
	flArr
	flEnd
)

type Flow struct {
	kind int
	st   *State
	fr   *Frame
	res  []Value
	pred *ssa.BasicBlock
}

type Outcome struct {
	st  *State
	res Value
}

type Exec struct {
	w             *World
	obls          []*Obl
	dry           int
	heapSorts     map[string]*Sort
	iptrs         map[*Term]*Place
	cellCnt       int
	driver        *Driver
	specMode      int // evaluating pure specification code: no safety obligations
	steps         int
	solver        *Inc
	useMode       *useCtx
	frameLocs     []modLoc
	frameReaders  bool
	oldState      *State
	assumed       map[string]bool
	inlined       map[string]bool
	recFuel       int
	loopSpecs     map[string][]*LoopSpec
	modular       map[string]*Driver
	usedOpaque    map[string]bool
	copyOf        map[*Term][3]*Term
	ghosts        map[*ssa.Function]bool
	fnLoops       map[*ssa.Function]*loopInfo
	fnPdom        map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	globalsIn     map[string]*Term
	oblCnt        map[string]int
	depthMax      int
	unsupp        []string
	covers        []*Obl
	inputs        []*Term
	usedSpecs     map[string]bool
	inv           *invCtx
	recFns        map[*ssa.Function]bool
	recGround     map[*ssa.Function]bool
	recDone       map[*Term]int
	usedContracts map[string]bool
	globalErrs    int
	seqs          map[*Term]*seqInfo
}

type useCtx struct {
	readers  bool // the call may move readers
	locs     []modLoc
	d        *Driver
	target   *ssa.Function
	results  Value
	called   bool
	callerFn *ssa.Function
	pos      string
}

func (x *Exec) oblige(st *State, name, kind string, goal *Term, pos string, fn string) {
	if x.dry > 0 {
		st.assume(goal)
		return
	}
	o := &Obl{Name: name, Kind: kind, Goal: goal, Hyps: st.pcTerms(), Pos: pos, Fn: fn, Trace: append([]string{}, st.trace...)}
	x.obls = append(x.obls, o)
	st.assume(goal)
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := x.w.prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

func (x *Exec) safety(st *State, fr *Frame, what string, goal *Term, pos token.Pos) {
	if goal.IsTrue() || x.specMode > 0 || fr.ghost {
		return
	}
	x.oblige(st, "nopanic/"+what+"@"+shortFn(fr.fn), "safety", goal, x.posOf(pos), shortFn(fr.fn))
}

// feasible asks the incremental solver whether the path condition can hold.
func (x *Exec) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	if x.solver == nil {
		return true
	}
	return x.solver.feasible(st.pcTerms())
}

// ------------------------------------------------------------------ calls

func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []Value, caller *Frame, pos token.Pos) []Outcome {
	if fn.Blocks == nil {
		panic(unsupported{"function without body " + fn.String()})
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 60 {
		panic(unsupported{"call depth exceeded in " + fn.String()})
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, args: args, binds: binds, active: map[*ssa.BasicBlock]*activeLoop{}, caller: caller, depth: depth, ghost: x.isGhost(fn)}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = binds[i]
	}
	if !fr.ghost {
		x.inlined[shortFn(fn)] = true
	}
	pcLen := len(st.pc)
	flows := x.run(fr, st, fn.Blocks[0], 0, nil)
	var outs []Outcome
	for _, f := range flows {
		if f.kind == flRet {
			var r Value
			switch len(f.res) {
			case 0:
			case 1:
				r = f.res[0]
			default:
				r = Tuple(f.res)
			}
			outs = append(outs, Outcome{f.st, r})
		}
	}
	if fr.ghost && len(outs) > 1 && len(flows) == len(outs) {
		outs = x.mergeOutcomes(outs, pcLen)
	}
	return outs
}

func (x *Exec) isGhost(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if g, ok := x.ghosts[f]; ok {
			return g
		}
		if f.Origin() != nil {
			if g, ok := x.ghosts[f.Origin()]; ok {
				return g
			}
		}
	}
	return false
}

// mergeOutcomes merges outcomes that differ only in path condition and result.
func (x *Exec) mergeOutcomes(outs []Outcome, pcLen int) []Outcome {
	for i := 1; i < len(outs); i++ {
		if !similar(outs[0].st, outs[i].st) || !mergeable(outs[0].res, outs[i].res) {
			return outs
		}
	}
	n := len(outs)
	res := outs[n-1].res
	var ors []*Term
	pure := true
	for i := n - 1; i >= 0; i-- {
		var cs []*Term
		for _, e := range outs[i].st.pc[pcLen:] {
			cs = append(cs, e.t)
			if !e.branch {
				pure = false
			}
		}
		c := And(cs...)
		ors = append(ors, c)
		if i < n-1 {
			res = mergeVal(c, outs[i].res, res)
		}
	}
	st := outs[0].st
	st.pc = st.pc[:pcLen]
	if !pure {
		st.assume(Or(ors...))
	}
	return []Outcome{{st, res}}
}

func mergeable(a, b Value) bool {
	if sameValue(a, b) {
		return true
	}
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		return ok && bt.S == a.S && a.S != RefS
	case Tuple:
		bt, ok := b.(Tuple)
		if !ok || len(a) != len(bt) {
			return false
		}
		for i := range a {
			if !mergeable(a[i], bt[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func mergeVal(c *Term, a, b Value) Value {
	if sameValue(a, b) {
		return a
	}
	switch a := a.(type) {
	case *Term:
		return Ite(c, a, b.(*Term))
	case Tuple:
		var r Tuple
		for i := range a {
			r = append(r, mergeVal(c, a[i], b.(Tuple)[i]))
		}
		return r
	}
	panic("mergeVal")
}

// similar: same memory, events, allocation state (cells local to returned frames are ignored).
func similar(a, b *State) bool {
	if a.epoch != b.epoch || a.off != b.off || len(a.events) != len(b.events) {
		return false
	}
	for i := range a.events {
		if a.events[i].fn != b.events[i].fn || a.events[i].name != b.events[i].name {
			return false
		}
		for j := range a.events[i].args {
			if a.events[i].args[j] != b.events[i].args[j] {
				return false
			}
		}
	}
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok && !sameValue(v, w) {
			return false
		}
	}
	for k, v := range a.promoted {
		if b.promoted[k] != v {
			return false
		}
	}
	if len(a.heap) != len(b.heap) || len(a.globals) != len(b.globals) || len(a.promoted) != len(b.promoted) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.globals {
		if b.globals[k] != v {
			return false
		}
	}
	for k, v := range a.iters {
		if w, ok := b.iters[k]; ok && (w.pos != v.pos || w.visited != v.visited) {
			return false
		}
	}
	for k, v := range a.ghosts {
		if b.ghosts[k] != v {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ blocks

const maxSteps = 3_000_000

func (x *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock) (flows []Flow) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			panic(unsupported{"step budget exceeded"})
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			return x.doIf(fr, st, b, in, stop)
		case *ssa.Jump:
			return x.enter(fr, st, b, b.Succs[0], stop)
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, x.val(fr, st, r))
			}
			return []Flow{{kind: flRet, st: st, fr: fr, res: res}}
		case *ssa.Panic:
			x.safety(st, fr, "panic", False, in.Pos())
			return nil
		case *ssa.Call:
			outs := x.doCall(fr, st, in, &in.Call)
			if len(outs) == 0 {
				return nil
			}
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.regs[in] = o.res
				if len(outs) == 1 {
					st = o.st
					break
				}
				if !x.feasible(o.st) {
					continue
				}
				flows = append(flows, x.run(f2, o.st, b, i+1, stop)...)
			}
			if len(outs) == 1 {
				continue
			}
			return flows
		case *ssa.RunDefers:
			sts := []Outcome{{st, nil}}
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				var next []Outcome
				for _, s := range sts {
					next = append(next, x.applyCall(fr, s.st, d.at, d.call, d.fn, d.args)...)
				}
				sts = next
			}
			if len(sts) == 1 {
				st = sts[0].st
				continue
			}
			for k, o := range sts {
				f2 := fr
				if k < len(sts)-1 {
					f2 = fr.clone()
				}
				flows = append(flows, x.run(f2, o.st, b, i+1, stop)...)
			}
			return flows
		case *ssa.TypeAssert:
			outs := x.doTypeAssert(fr, st, in)
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.regs[in] = o.res
				if len(outs) == 1 {
					st = o.st
					break
				}
				if !x.feasible(o.st) {
					continue
				}
				flows = append(flows, x.run(f2, o.st, b, i+1, stop)...)
			}
			if len(outs) == 1 {
				continue
			}
			return flows
		case *ssa.Next:
			outs := x.doNext(fr, st, in)
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.regs[in] = o.res
				if len(outs) == 1 {
					st = o.st
					break
				}
				if !x.feasible(o.st) {
					continue
				}
				flows = append(flows, x.run(f2, o.st, b, i+1, stop)...)
			}
			if len(outs) == 1 {
				continue
			}
			return flows
		default:
			x.instr(fr, st, in)
		}
	}
	return nil
}

func (x *Exec) doIf(fr *Frame, st *State, b *ssa.BasicBlock, in *ssa.If, stop *ssa.BasicBlock) []Flow {
	c := x.val(fr, st, in.Cond).(*Term)
	if c.IsTrue() {
		return x.enter(fr, st, b, b.Succs[0], stop)
	}
	if c.IsFalse() {
		return x.enter(fr, st, b, b.Succs[1], stop)
	}
	// already decided by the path condition?
	nc := Not(c)
	for _, p := range st.pc {
		if p.t == c {
			return x.enter(fr, st, b, b.Succs[0], stop)
		}
		if p.t == nc {
			return x.enter(fr, st, b, b.Succs[1], stop)
		}
	}
	J := x.pdom(fr.fn)[b]
	inner := stop
	merge := J != nil
	if merge {
		inner = J
	}
	pcLen := len(st.pc)
	var flows []Flow
	pos := ""
	if in.Cond.Pos().IsValid() {
		pos = x.posOf(in.Cond.Pos())
	}
	for k := 0; k < 2; k++ {
		s2 := st.clone()
		cc := c
		if k == 1 {
			cc = nc
		}
		s2.branch(cc)
		if !fr.ghost {
			s2.trace = append(s2.trace, fmt.Sprintf("%s:%v", pos, k == 0))
		}
		if s2.dead() || (x.specMode == 0 && !fr.ghost && !x.feasible(s2)) {
			continue
		}
		flows = append(flows, x.enter(fr.clone(), s2, b, b.Succs[k], inner)...)
	}
	if !merge {
		return flows
	}
	var out []Flow
	var arr []Flow
	for _, f := range flows {
		if f.kind == flArr {
			arr = append(arr, f)
		} else {
			out = append(out, f)
		}
	}
	arr = x.mergeArrivals(arr, J, pcLen, fr, len(out) == 0)
	for _, f := range arr {
		if J == stop {
			out = append(out, f)
			continue
		}
		out = append(out, x.header(f.fr, f.st, f.pred, J, stop)...)
	}
	return out
}

func (x *Exec) mergeArrivals(arr []Flow, J *ssa.BasicBlock, pcLen int, base *Frame, complete bool) []Flow {
	if len(arr) < 2 {
		return arr
	}
	var phis []*ssa.Phi
	for _, in := range J.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	for i := 1; i < len(arr); i++ {
		if !similar(arr[0].st, arr[i].st) || len(arr[0].fr.defers) != len(arr[i].fr.defers) {
			return arr
		}
		for _, p := range phis {
			if !mergeable(arr[0].fr.regs[p], arr[i].fr.regs[p]) {
				return arr
			}
		}
		for k, a := range arr[0].fr.active {
			if b, ok := arr[i].fr.active[k]; !ok || a.count != b.count {
				return arr
			}
		}
	}
	n := len(arr)
	conds := make([]*Term, n)
	pure := true
	for i := range arr {
		var cs []*Term
		for _, e := range arr[i].st.pc[pcLen:] {
			cs = append(cs, e.t)
			if !e.branch {
				pure = false
			}
		}
		conds[i] = And(cs...)
	}
	f := arr[n-1]
	for _, p := range phis {
		v := f.fr.regs[p]
		for i := n - 2; i >= 0; i-- {
			v = mergeVal(conds[i], arr[i].fr.regs[p], v)
		}
		f.fr.regs[p] = v
	}
	f.st.pc = f.st.pc[:pcLen]
	f.st.trace = f.st.trace[:min(len(f.st.trace), len(arr[0].st.trace))]
	if !pure || !complete {
		f.st.branch(Or(conds...))
	}
	return []Flow{f}
}

func (x *Exec) phis(fr *Frame, st *State, pred, b *ssa.BasicBlock) {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(fr, st, p.Edges[idx]))
		ps = append(ps, p)
	}
	for i, p := range ps {
		fr.regs[p] = vals[i]
	}
}

func (x *Exec) enter(fr *Frame, st *State, pred, b, stop *ssa.BasicBlock) []Flow {
	x.phis(fr, st, pred, b)
	if b == stop {
		return []Flow{{kind: flArr, st: st, fr: fr, pred: pred}}
	}
	return x.header(fr, st, pred, b, stop)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) header(fr *Frame, st *State, pred, b, stop *ssa.BasicBlock) []Flow {
	if fr.limit != nil && !fr.limit[b] {
		return nil // dry run leaves the loop
	}
	li := x.loops(fr.fn)
	if L, ok := li.byHeader[b]; ok {
		return x.loopHead(fr, st, pred, L, stop)
	}
	// leaving loops: drop activations
	for h := range fr.active {
		if !li.byHeader[h].blocks[b] {
			delete(fr.active, h)
		}
	}
	return x.run(fr, st, b, firstNonPhi(b), stop)
}

// ------------------------------------------------------------------ values

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	if r, ok := fr.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Closure{Fn: v}
	case *ssa.Global:
		return &Place{kind: "global", name: v.RelString(nil), root: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	panic(unsupported{fmt.Sprintf("value %T %s in %s", v, v.Name(), fr.fn)})
}

func (x *Exec) tval(fr *Frame, st *State, v ssa.Value) *Term {
	return x.term(st, x.val(fr, st, v), v.Type())
}

func (x *Exec) constVal(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return x.w.zero(t)
	}
	switch x.w.sortOf(t) {
	case BoolS:
		return Bool(constant.BoolVal(c.Value))
	case StrS:
		return Str(constant.StringVal(c.Value))
	case IntS:
		i := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			panic(unsupported{"constant " + c.String()})
		}
		return BigInt(n)
	case RealS:
		// the float64 nearest to the constant
		f, _ := constant.Float64Val(c.Value)
		r := new(big.Rat)
		if r.SetFloat64(f) == nil {
			panic(unsupported{"constant " + c.String()})
		}
		return Rat(r)
	}
	panic(unsupported{"constant " + c.String() + " of type " + t.String()})
}

func (x *Exec) newCell(st *State, t types.Type, init Value) *Place {
	x.cellCnt++
	id := x.cellCnt
	st.cells[id] = init
	st.ctype[id] = t
	return &Place{kind: "cell", cell: id, root: t}
}

func (x *Exec) wrap(t *Term, typ types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(typ)
	if !ok {
		return t
	}
	if t.IsInt() {
		n := new(big.Int).Set(t.I)
		m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		n.Mod(n, m)
		if signed && n.Cmp(hi) > 0 {
			n.Sub(n, m)
		}
		return BigInt(n)
	}
	if l, h, ok := bounds(t); ok && l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	m := BigInt(new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	var w *Term
	if signed {
		half := BigInt(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		w = Sub(EMod(Add(t, half), m), half)
	} else {
		w = EMod(t, m)
	}
	r := Ite(And(Le(BigInt(lo), t), Le(t, BigInt(hi))), t, w)
	if r.Op == "ite" {
		if _, ok := bndTab[r]; !ok {
			bndTab[r] = [2]*big.Int{lo, hi}
		}
	}
	return r
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if strings.HasPrefix(t.String(), "$ssa") || t.String() == "$ssa.deferStack" || in.Comment == "defer$stack" {
			fr.regs[in] = x.newCell(st, types.Typ[types.Int], Int(0))
			return
		}
		fr.regs[in] = x.newCell(st, t, x.w.zero(t))
	case *ssa.Store:
		addr := x.val(fr, st, in.Addr)
		elem := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		x.nilCheck(st, fr, addr, in.Pos())
		x.store(st, x.placeOf(x.ip(addr), elem), x.val(fr, st, in.Val))
	case *ssa.UnOp:
		fr.regs[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.regs[in] = x.binop(fr, st, in.Op, x.val(fr, st, in.X), x.val(fr, st, in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos())
	case *ssa.ChangeType:
		fr.regs[in] = x.changeType(st, x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		fr.regs[in] = x.val(fr, st, in.X)
	case *ssa.Convert:
		fr.regs[in] = x.convert(fr, st, x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		if x.lazyIface(in) {
			fr.regs[in] = x.val(fr, st, in.X)
			return
		}
		fr.regs[in] = MkCtor(x.w.anyCtor(in.X.Type()), x.tval(fr, st, in.X))
	case *ssa.MakeClosure:
		var binds []Value
		for _, b := range in.Bindings {
			binds = append(binds, x.val(fr, st, b))
		}
		fr.regs[in] = &Closure{Fn: in.Fn.(*ssa.Function), Binds: binds}
	case *ssa.MakeMap:
		fr.regs[in] = x.makeMap(st, in.Type())
	case *ssa.MakeSlice:
		ln := x.tval(fr, st, in.Len)
		cp := x.tval(fr, st, in.Cap)
		x.safety(st, fr, "makeslice", And(Le(Int(0), ln), Le(ln, cp)), in.Pos())
		fr.regs[in] = x.makeSlice(st, in.Type().Underlying().(*types.Slice).Elem(), ln, cp)
	case *ssa.FieldAddr:
		v := x.val(fr, st, in.X)
		st0 := in.X.Type().Underlying().(*types.Pointer).Elem()
		x.nilCheck(st, fr, v, in.Pos())
		if x.w.isOpaqueStruct(st0) {
			panic(unsupported{"field of external struct " + st0.String()})
		}
		fr.regs[in] = x.placeOf(x.ip(v), st0).sub(step{field: in.Field, t: st0})
	case *ssa.Field:
		v := x.tval(fr, st, in.X)
		if x.w.isOpaqueStruct(in.X.Type()) {
			panic(unsupported{"field of external struct " + in.X.Type().String()})
		}
		r := Sel(x.w.structDT(in.X.Type()).Ctors[0], in.Field, v)
		x.w.typeFacts(in.Type(), r)
		fr.regs[in] = r
	case *ssa.IndexAddr:
		idx := x.tval(fr, st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.tval(fr, st, in.X)
			x.safety(st, fr, "index", And(Le(Int(0), idx), Lt(idx, x.sLen(s))), in.Pos())
			fr.regs[in] = x.elemPlace(s, idx, u.Elem())
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.nilCheck(st, fr, x.val(fr, st, in.X), in.Pos())
			x.safety(st, fr, "index", And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), in.Pos())
			fr.regs[in] = x.placeOf(x.ip(x.val(fr, st, in.X)), u.Elem()).sub(step{idx: idx, t: u.Elem()})
		default:
			panic(unsupported{"IndexAddr " + in.X.Type().String()})
		}
	case *ssa.Index:
		v := x.tval(fr, st, in.X)
		idx := x.tval(fr, st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(st, fr, "index", And(Le(Int(0), idx), Lt(idx, Int(u.Len()))), in.Pos())
			r := Select(v, idx)
			x.w.typeFacts(u.Elem(), r)
			fr.regs[in] = r
		case *types.Basic:
			x.safety(st, fr, "index", And(Le(Int(0), idx), Lt(idx, StrLen(v))), in.Pos())
			fr.regs[in] = CharAt(v, idx)
		default:
			panic(unsupported{"Index " + in.X.Type().String()})
		}
	case *ssa.Lookup:
		v := x.tval(fr, st, in.X)
		k := x.tval(fr, st, in.Index)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			val, has := x.mapGet(st, v, mt, k)
			if in.CommaOk {
				fr.regs[in] = Tuple{val, has}
			} else {
				fr.regs[in] = val
			}
			return
		}
		x.safety(st, fr, "index", And(Le(Int(0), k), Lt(k, StrLen(v))), in.Pos())
		fr.regs[in] = CharAt(v, k)
	case *ssa.MapUpdate:
		m := x.tval(fr, st, in.Map)
		mt := in.Map.Type().Underlying().(*types.Map)
		k := x.tval(fr, st, in.Key)
		v := x.tval(fr, st, in.Value)
		x.safety(st, fr, "nilmap", Not(Eq(m, Ref(0))), in.Pos())
		x.mapSet(st, m, mt, k, v)
	case *ssa.Slice:
		fr.regs[in] = x.slice(fr, st, in)
	case *ssa.Range:
		fr.regs[in] = x.mkRange(fr, st, in)
	case *ssa.Extract:
		tv := x.val(fr, st, in.Tuple)
		tp, ok := tv.(Tuple)
		if !ok {
			panic(unsupported{fmt.Sprintf("extract from %T", tv)})
		}
		fr.regs[in] = tp[in.Index]
	case *ssa.Defer:
		fv, args := x.callOperands(fr, st, &in.Call)
		fr.defers = append(fr.defers, deferred{call: &in.Call, fn: fv, args: args, at: in})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

// ip resolves an opaque interior pointer back to its place.
func (x *Exec) ip(v Value) Value {
	if t, ok := v.(*Term); ok {
		if p, ok := x.iptrs[t]; ok {
			return p
		}
	}
	return v
}

// lazyIface: arguments of specification quantifiers keep their closure.
func (x *Exec) lazyIface(in *ssa.MakeInterface) bool {
	if _, ok := in.X.Type().Underlying().(*types.Signature); !ok {
		return false
	}
	for _, r := range *in.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && x.ghosts[f] {
				return true
			}
		}
	}
	return false
}

func (x *Exec) nilCheck(st *State, fr *Frame, v Value, pos token.Pos) {
	if t, ok := v.(*Term); ok {
		if _, ok := x.iptrs[t]; ok {
			return
		}
		x.safety(st, fr, "nil", Not(Eq(t, Ref(0))), pos)
	}
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Value {
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		elem := in.X.Type().Underlying().(*types.Pointer).Elem()
		x.nilCheck(st, fr, v, in.Pos())
		return x.load(st, x.placeOf(x.ip(v), elem))
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		return x.wrap(Neg(t), in.Type())
	case token.XOR:
		t := v.(*Term)
		_, hi, _, signed, _ := intRange(in.Type())
		if signed {
			return Sub(Int(-1), t)
		}
		return Sub(BigInt(hi), t)
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func (x *Exec) changeType(st *State, v Value, from, to types.Type) Value {
	if t, ok := v.(*Term); ok {
		// struct types with identical underlying types have distinct datatypes
		if isStructT(x.w, from) && isStructT(x.w, to) && x.w.sortOf(from) != x.w.sortOf(to) {
			a, b := x.w.structDT(from).Ctors[0], x.w.structDT(to).Ctors[0]
			var args []*Term
			for i := range b.Fields {
				args = append(args, Sel(a, i, t))
			}
			return MkCtor(b, args...)
		}
	}
	return v
}

func tdiv(a, b *Term) *Term {
	if l, _, ok := bounds(a); ok && l != nil && l.Sign() >= 0 {
		return EDiv(a, b)
	}
	return Ite(Le(Int(0), a), EDiv(a, b), Neg(EDiv(Neg(a), b)))
}
func trem(a, b *Term) *Term {
	if l, _, ok := bounds(a); ok && l != nil && l.Sign() >= 0 {
		return EMod(a, b)
	}
	return Ite(Le(Int(0), a), EMod(a, b), Neg(EMod(Neg(a), b)))
}

func (x *Exec) binop(fr *Frame, st *State, o token.Token, xv, yv Value, xt, yt, rt types.Type, pos token.Pos) Value {
	// comparisons of engine-level pointers
	if o == token.EQL || o == token.NEQ {
		r := x.equal(st, xv, yv, xt, yt)
		if o == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := x.term(st, xv, xt), x.term(st, yv, yt)
	switch a.S {
	case StrS:
		switch o {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return strOp("str.<", BoolS, a, b)
		case token.GTR:
			return strOp("str.<", BoolS, b, a)
		case token.LEQ:
			return strOp("str.<=", BoolS, a, b)
		case token.GEQ:
			return strOp("str.<=", BoolS, b, a)
		}
	case BoolS:
		switch o {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	case RealS:
		switch o {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			x.safety(st, fr, "float-div-zero", Not(Eq(b, Rat(new(big.Rat)))), pos)
			return RDiv(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		}
	case IntS:
		switch o {
		case token.ADD:
			return x.wrap(Add(a, b), rt)
		case token.SUB:
			return x.wrap(Sub(a, b), rt)
		case token.MUL:
			return x.wrap(Mul(a, b), rt)
		case token.QUO:
			x.safety(st, fr, "div-zero", Not(Eq(b, Int(0))), pos)
			return x.wrap(tdiv(a, b), rt)
		case token.REM:
			x.safety(st, fr, "div-zero", Not(Eq(b, Int(0))), pos)
			return x.wrap(trem(a, b), rt)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.SHL:
			if b.IsInt() && b.I.IsInt64() && b.I.Int64() < 64 && b.I.Sign() >= 0 {
				return x.wrap(Mul(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.I.Int64())))), rt)
			}
		case token.SHR:
			if b.IsInt() && b.I.IsInt64() && b.I.Int64() < 64 && b.I.Sign() >= 0 {
				return EDiv(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.I.Int64()))))
			}
		case token.AND:
			if m := maskBits(b); m >= 0 {
				return EMod(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(m))))
			}
			if m := maskBits(a); m >= 0 {
				return EMod(b, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(m))))
			}
		}
		// constants
		if a.IsInt() && b.IsInt() {
			r := new(big.Int)
			switch o {
			case token.AND:
				return x.wrap(BigInt(r.And(a.I, b.I)), rt)
			case token.OR:
				return x.wrap(BigInt(r.Or(a.I, b.I)), rt)
			case token.XOR:
				return x.wrap(BigInt(r.Xor(a.I, b.I)), rt)
			case token.AND_NOT:
				return x.wrap(BigInt(r.AndNot(a.I, b.I)), rt)
			}
		}
		u := App("bv"+o.String(), IntS, a, b)
		if lo, hi, _, _, ok := intRange(rt); ok {
			setBounds(u, lo, hi)
		}
		return u
	}
	panic(unsupported{"binop " + o.String() + " on " + xt.String()})
}

func maskBits(t *Term) int {
	if !t.IsInt() || t.I.Sign() < 0 {
		return -1
	}
	n := new(big.Int).Add(t.I, big.NewInt(1))
	if n.BitLen() > 0 && new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()-1)).Cmp(n) == 0 {
		return n.BitLen() - 1
	}
	return -1
}

func (x *Exec) isNilVal(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.Op == "ref" && t.I.Sign() == 0
}

func (x *Exec) equal(st *State, a, b Value, at, bt types.Type) *Term {
	_, aIsC := a.(*Closure)
	_, bIsC := b.(*Closure)
	if aIsC && x.isNilVal(b) || bIsC && x.isNilVal(a) {
		return False
	}
	pa, okA := a.(*Place)
	pb, okB := b.(*Place)
	if okA && x.isNilVal(b) || okB && x.isNilVal(a) {
		return False
	}
	if okA && okB {
		if sameValue(pa, pb) {
			return True
		}
		if pa.kind == "cell" && pb.kind == "cell" && pa.cell != pb.cell {
			return False
		}
	}
	_, aI := at.Underlying().(*types.Interface)
	_, bI := bt.Underlying().(*types.Interface)
	ta, tb := x.term(st, a, at), x.term(st, b, bt)
	if aI && !bI {
		tb = MkCtor(x.w.anyCtor(bt), tb)
	} else if bI && !aI {
		ta = MkCtor(x.w.anyCtor(at), ta)
	}
	if _, isSl := at.Underlying().(*types.Slice); isSl {
		// only comparison with nil is legal
		if tb.Op == "ctor" && tb.Args[0] == Ref(0) {
			return Eq(x.sArr(ta), Ref(0))
		}
		return Eq(x.sArr(tb), Ref(0))
	}
	return Eq(ta, tb)
}

// ------------------------------------------------------------------ maps

func mapKeys(mt *types.Map) (dom, val, ln string) {
	k := typeKey(mt.Key()) + "|" + typeKey(mt.Elem())
	return "MD|" + k, "MV|" + k, "ML|" + k
}

func (x *Exec) mapArrs(st *State, mt *types.Map) (dom, val, ln *Term) {
	dk, vk, lk := mapKeys(mt)
	ks, vs := x.w.sortOf(mt.Key()), x.w.sortOf(mt.Elem())
	return x.heapGet(st, dk, ArrS(RefS, ArrS(ks, BoolS))), x.heapGet(st, vk, ArrS(RefS, ArrS(ks, vs))), x.heapGet(st, lk, ArrS(RefS, IntS))
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k *Term) (val, has *Term) {
	if m == Ref(0) {
		return x.w.zero(mt.Elem()), False
	}
	dom, va, _ := x.mapArrs(st, mt)
	row := Select(dom, m)
	has = Select(row, k)
	val = Select(Select(va, m), k)
	if !isConst(has) {
		addFact(has, Imp(Eq(m, Ref(0)), Not(has)))
	}
	if has.IsFalse() {
		return x.w.zero(mt.Elem()), has
	}
	if !isConst(val) && val.Op != "ctor" {
		x.w.typeFacts(mt.Elem(), val)
		if !has.IsTrue() {
			addFact(val, Imp(Not(has), Eq(val, x.w.zero(mt.Elem()))))
		}
	}
	return val, has
}

func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k, v *Term) {
	dk, vk, lk := mapKeys(mt)
	dom, va, ln := x.mapArrs(st, mt)
	row := Select(dom, m)
	st.heap[lk] = Store(ln, m, Ite(Select(row, k), Select(ln, m), Add(Select(ln, m), Int(1))))
	st.heap[dk] = Store(dom, m, Store(row, k, True))
	st.heap[vk] = Store(va, m, Store(Select(va, m), k, v))
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	dk, vk, lk := mapKeys(mt)
	dom, va, ln := x.mapArrs(st, mt)
	row := Select(dom, m)
	st.heap[lk] = Store(ln, m, Ite(Select(row, k), Add(Select(ln, m), Int(-1)), Select(ln, m)))
	st.heap[dk] = Store(dom, m, Store(row, k, False))
	st.heap[vk] = Store(va, m, Store(Select(va, m), k, x.w.zero(mt.Elem())))
}

func (x *Exec) makeMap(st *State, t types.Type) *Term {
	mt := t.Underlying().(*types.Map)
	r := st.alloc()
	dk, vk, lk := mapKeys(mt)
	dom, va, ln := x.mapArrs(st, mt)
	st.heap[dk] = Store(dom, r, ConstArr(dom.S.Elem, False))
	st.heap[vk] = Store(va, r, ConstArr(va.S.Elem, x.w.zero(mt.Elem())))
	st.heap[lk] = Store(ln, r, Int(0))
	return r
}

func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	_, _, ln := x.mapArrs(st, mt)
	dom, _, _ := x.mapArrs(st, mt)
	l := Select(ln, m)
	if !isConst(l) {
		setBounds(l, new(big.Int), maxLen)
		bv := BVar("k", x.w.sortOf(mt.Key()))
		addFact(l, Imp(Eq(m, Ref(0)), Eq(l, Int(0))))
		addFact(l, Eq(Eq(l, Int(0)), intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{bv}, Args: []*Term{Not(op("select", BoolS, Select(dom, m), bv))}})))
	}
	return l
}

// ------------------------------------------------------------------ slices

func (x *Exec) sArr(s *Term) *Term { return Sel(x.w.sliceC, 0, s) }
func (x *Exec) sOff(s *Term) *Term { return Sel(x.w.sliceC, 1, s) }
func (x *Exec) sLen(s *Term) *Term { return Sel(x.w.sliceC, 2, s) }
func (x *Exec) sCap(s *Term) *Term { return Sel(x.w.sliceC, 3, s) }
func (x *Exec) mkSlice(a, o, l, c *Term) *Term {
	return MkCtor(x.w.sliceC, a, o, l, c)
}

func (x *Exec) elemPlace(s, idx *Term, et types.Type) *Place {
	return &Place{kind: "elem", ref: x.sArr(s), idx: Add(x.sOff(s), idx), root: et}
}

func (x *Exec) sGet(st *State, s, idx *Term, et types.Type) *Term {
	return x.load(st, x.elemPlace(s, idx, et)).(*Term)
}

func zeroBytes(n int) string { return strings.Repeat("\x00", n) }

func (x *Exec) makeSlice(st *State, et types.Type, ln, cp *Term) *Term {
	r := st.alloc()
	if isByte(et) {
		b := x.bytesArr(st)
		var c *Term
		if cp.IsInt() && cp.I.Int64() < 4096 {
			c = Str(zeroBytes(int(cp.I.Int64())))
		} else {
			c = Fresh("bytes", StrS)
			st.assume(Eq(StrLen(c), cp))
		}
		st.heap["B"] = Store(b, r, c)
		return x.mkSlice(r, Int(0), ln, cp)
	}
	a := x.elemArr(st, et)
	st.heap["E|"+typeKey(et)] = Store(a, r, ConstArr(a.S.Elem, x.w.zero(et)))
	return x.mkSlice(r, Int(0), ln, cp)
}

// bytesContent is the string of bytes of a []byte.
func (x *Exec) bytesContent(st *State, s *Term) *Term {
	if x.sLen(s) == Int(0) {
		return Str("")
	}
	c := Select(x.bytesArr(st), x.sArr(s))
	addFact(s, Imp(Not(Eq(x.sArr(s), Ref(0))), Le(Add(x.sOff(s), x.sCap(s)), StrLen(c))))
	return Substr(c, x.sOff(s), x.sLen(s))
}

func (x *Exec) newBytes(st *State, content *Term) *Term {
	r := st.alloc()
	st.heap["B"] = Store(x.bytesArr(st), r, content)
	return x.mkSlice(r, Int(0), StrLen(content), StrLen(content))
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Value {
	lo := Int(0)
	if in.Low != nil {
		lo = x.tval(fr, st, in.Low)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := x.tval(fr, st, in.X)
		hi := StrLen(s)
		if in.High != nil {
			hi = x.tval(fr, st, in.High)
		}
		x.safety(st, fr, "slice", And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(s))), in.Pos())
		return Substr(s, lo, Sub(hi, lo))
	case *types.Slice:
		s := x.tval(fr, st, in.X)
		hi := x.sLen(s)
		if in.High != nil {
			hi = x.tval(fr, st, in.High)
		}
		cp := x.sCap(s)
		mx := cp
		if in.Max != nil {
			mx = x.tval(fr, st, in.Max)
		}
		x.safety(st, fr, "slice", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), in.Pos())
		return x.mkSlice(x.sArr(s), Add(x.sOff(s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Pointer: // *array
		at := u.Elem().Underlying().(*types.Array)
		p := x.placeOf(x.ip(x.val(fr, st, in.X)), u.Elem())
		hi := Int(at.Len())
		if in.High != nil {
			hi = x.tval(fr, st, in.High)
		}
		// a backing array is made of the array's current content; the array
		// variable itself is dead afterwards in the supported code (variadic
		// calls and composite literals), which SSA marks with these comments.
		al, ok := in.X.(*ssa.Alloc)
		if !ok || !(al.Comment == "varargs" || al.Comment == "slicelit" || strings.Contains(al.Comment, "makeslice")) {
			panic(unsupported{"slice of an array variable"})
		}
		c := x.load(st, p).(*Term)
		r := st.alloc()
		if isByte(at.Elem()) {
			var parts []*Term
			for i := int64(0); i < at.Len(); i++ {
				parts = append(parts, FromCode(Select(c, Int(i))))
			}
			st.heap["B"] = Store(x.bytesArr(st), r, Concat(parts...))
		} else {
			st.heap["E|"+typeKey(at.Elem())] = Store(x.elemArr(st, at.Elem()), r, c)
		}
		x.safety(st, fr, "slice", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))), in.Pos())
		return x.mkSlice(r, lo, Sub(hi, lo), Sub(Int(at.Len()), lo))
	}
	panic(unsupported{"slice of " + in.X.Type().String()})
}

// appendVals: append(s, vals...) with a known number of elements.
func (x *Exec) appendVals(st *State, s *Term, et types.Type, vals []*Term) []Outcome {
	if isByte(et) {
		var parts []*Term
		for _, v := range vals {
			parts = append(parts, FromCode(v))
		}
		return x.appendBytes(st, s, Concat(parts...))
	}
	n := Int(int64(len(vals)))
	if len(vals) == 0 {
		return []Outcome{{st, s}}
	}
	fits := Le(Add(x.sLen(s), n), x.sCap(s))
	key := "E|" + typeKey(et)
	var outs []Outcome
	if !fits.IsFalse() {
		s2 := st
		if !fits.IsTrue() {
			s2 = st.clone()
			s2.branch(fits)
		}
		if x.feasible(s2) {
			a := x.elemArr(s2, et)
			row := Select(a, x.sArr(s))
			for i, v := range vals {
				row = Store(row, Add(Add(x.sOff(s), x.sLen(s)), Int(int64(i))), v)
			}
			s2.heap[key] = Store(a, x.sArr(s), row)
			outs = append(outs, Outcome{s2, x.mkSlice(x.sArr(s), x.sOff(s), Add(x.sLen(s), n), x.sCap(s))})
		}
	}
	if !fits.IsTrue() {
		s2 := st
		s2.branch(Not(fits))
		if len(outs) == 0 || x.feasible(s2) {
			a := x.elemArr(s2, et)
			r := s2.alloc()
			row := x.rebase(s2, Select(a, x.sArr(s)), x.sOff(s), x.sLen(s))
			if x.sLen(s) == Int(0) {
				row = ConstArr(a.S.Elem, x.w.zero(et))
			}
			for i, v := range vals {
				row = Store(row, Add(x.sLen(s), Int(int64(i))), v)
			}
			s2.heap[key] = Store(a, r, row)
			nl := Add(x.sLen(s), n)
			cp := x.freshCap(s2, nl)
			outs = append(outs, Outcome{s2, x.mkSlice(r, Int(0), nl, cp)})
		}
	}
	return outs
}

func (x *Exec) freshCap(st *State, nl *Term) *Term {
	cp := Fresh("cap", IntS)
	setBounds(cp, new(big.Int), maxLen)
	st.assume(Le(nl, cp))
	return cp
}

// rebase: an array holding at i what row holds at off+i.
func (x *Exec) rebase(st *State, row, off, n *Term) *Term {
	if off.IsInt() && off.I.Sign() == 0 {
		return row
	}
	r := Fresh("row", row.S)
	if e, ok := rootEpoch(row); ok {
		refTab[r] = e
	} else {
		refTab[r] = st.top()
	}
	bv := BVar("i", IntS)
	st.assume(Forall([]*Term{bv}, Eq(op("select", row.S.Elem, r, bv), Select(row, Add(off, bv)))))
	return r
}

func (x *Exec) appendBytes(st *State, s, c *Term) []Outcome {
	if c == Str("") {
		return []Outcome{{st, s}}
	}
	// a []byte that grows: in place when capacity allows, otherwise reallocated
	nl := Add(x.sLen(s), StrLen(c))
	fits := Le(nl, x.sCap(s))
	var outs []Outcome
	if !fits.IsFalse() {
		s2 := st
		if !fits.IsTrue() {
			s2 = st.clone()
			s2.branch(fits)
		}
		if x.feasible(s2) {
			b := x.bytesArr(s2)
			old := Select(b, x.sArr(s))
			end := Add(x.sOff(s), x.sLen(s))
			nc := Concat(Substr(old, Int(0), end), c, Substr(old, Add(end, StrLen(c)), Sub(StrLen(old), Add(end, StrLen(c)))))
			s2.heap["B"] = Store(b, x.sArr(s), nc)
			outs = append(outs, Outcome{s2, x.mkSlice(x.sArr(s), x.sOff(s), nl, x.sCap(s))})
		}
	}
	if !fits.IsTrue() {
		s2 := st
		s2.branch(Not(fits))
		content := x.bytesContent(s2, s)
		r := s2.alloc()
		cp := x.freshCap(s2, nl)
		pad := Fresh("pad", StrS)
		s2.assume(Eq(StrLen(pad), Sub(cp, nl)))
		s2.heap["B"] = Store(x.bytesArr(s2), r, Concat(content, c, pad))
		outs = append(outs, Outcome{s2, x.mkSlice(r, Int(0), nl, cp)})
	}
	return outs
}

// sliceElems returns the elements of a slice of statically known length.
func (x *Exec) sliceElems(st *State, s *Term, et types.Type) ([]*Term, bool) {
	l := x.sLen(s)
	if !l.IsInt() || l.I.Int64() > 256 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < l.I.Int64(); i++ {
		out = append(out, x.sGet(st, s, Int(i), et))
	}
	return out, true
}

// ------------------------------------------------------------------ conversion

func (x *Exec) convert(fr *Frame, st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fOK := fu.(*types.Basic)
	tb, tOK := tu.(*types.Basic)
	if fOK && tOK {
		t := x.term(st, v, from)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return x.wrap(t, to)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return x.intToFloat(st, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return App("round32", RealS, t)
			}
			return t
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			// truncation toward zero; out of range is implementation-defined
			tr := realTrunc(t)
			lo, hi, _, _, _ := intRange(to)
			oor := App("fptoi_"+typeKey(to), IntS, t)
			setBounds(oor, lo, hi)
			r := Ite(And(Le(BigInt(lo), tr), Le(tr, BigInt(hi))), tr, oor)
			if r.Op == "ite" {
				if _, ok := bndTab[r]; !ok {
					bndTab[r] = [2]*big.Int{lo, hi}
				}
			}
			return r
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return x.runeToStr(t)
		}
	}
	if fOK && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok && isByte(sl.Elem()) {
			return x.newBytes(st, x.term(st, v, from))
		}
		if sl, ok := tu.(*types.Slice); ok {
			s := x.term(st, v, from)
			r := st.alloc()
			key := "E|" + typeKey(sl.Elem())
			a := x.elemArr(st, sl.Elem())
			row := App("utf8_runes", a.S.Elem, s)
			n := App("utf8_count", IntS, s)
			setBounds(n, new(big.Int), maxLen)
			addFact(n, Le(n, StrLen(s)))
			st.heap[key] = Store(a, r, row)
			return x.mkSlice(r, Int(0), n, n)
		}
	}
	if tOK && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return x.bytesContent(st, x.term(st, v, from))
			}
			s := x.term(st, v, from)
			return App("utf8_fromrunes", StrS, Select(x.elemArr(st, sl.Elem()), x.sArr(s)), x.sOff(s), x.sLen(s))
		}
	}
	panic(unsupported{"conversion " + from.String() + " to " + to.String()})
}

func realTrunc(t *Term) *Term {
	if t.Op == "to_real" {
		return t.Args[0]
	}
	if t.Op == "real" {
		q := new(big.Int).Quo(t.R.Num(), t.R.Denom())
		return BigInt(q)
	}
	zero := Rat(new(big.Rat))
	return Ite(Le(zero, t), op("to_int", IntS, t), Neg(op("to_int", IntS, Neg(t))))
}

var two53 = new(big.Int).Lsh(big.NewInt(1), 53)

func (x *Exec) intToFloat(st *State, t *Term) *Term {
	if t.IsInt() {
		f := new(big.Float).SetPrec(53).SetInt(t.I)
		r, _ := f.Rat(nil)
		return Rat(r)
	}
	ex := op("to_real", RealS, t)
	lo, hi, ok := bounds(t)
	n53 := new(big.Int).Neg(two53)
	if ok && lo != nil && hi != nil && lo.Cmp(n53) >= 0 && hi.Cmp(two53) <= 0 {
		return ex
	}
	r := App("i2f_round", RealS, t)
	return Ite(And(Le(BigInt(n53), t), Le(t, BigInt(two53))), ex, r)
}

func (x *Exec) runeToStr(t *Term) *Term {
	if t.IsInt() && t.I.IsInt64() {
		return Str(string(rune(t.I.Int64())))
	}
	u := App("utf8_encode", StrS, t)
	addFact(u, And(Imp(And(Le(Int(0), t), Lt(t, Int(128))), Eq(u, FromCode(t))), Le(Int(1), StrLen(u)), Le(StrLen(u), Int(4))))
	return Ite(And(Le(Int(0), t), Lt(t, Int(128))), FromCode(t), u)
}
