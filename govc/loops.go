package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopSpec is an invariant function: its parameters are bound by name to the locals
// in scope at the loop head.
type LoopSpec struct {
	Fn      *ssa.Function
	Target  string // function whose loop this is
	Ordinal int    // 1-based loop in source order, 0: any
	Name    string
}

type loopT struct {
	head    *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	ordinal int
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loopT
}

func (x *Exec) loops(fn *ssa.Function) *loopInfo {
	if li, ok := x.fnLoops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				L := li.byHeader[s]
				if L == nil {
					L = &loopT{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = L
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.blocks[n] {
						continue
					}
					L.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	var hs []*loopT
	for _, L := range li.byHeader {
		hs = append(hs, L)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].head.Index < hs[j].head.Index })
	// source order: by first valid position in the loop blocks
	pos := func(L *loopT) int {
		best := 1 << 60
		for b := range L.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && int(p) < best {
					best = int(p)
				}
			}
		}
		return best
	}
	sort.SliceStable(hs, func(i, j int) bool {
		pi, pj := pos(hs[i]), pos(hs[j])
		if pi != pj {
			return pi < pj
		}
		return len(hs[i].blocks) > len(hs[j].blocks)
	})
	for i, L := range hs {
		L.ordinal = i + 1
	}
	x.fnLoops[fn] = li
	return li
}

// pdom computes immediate postdominators (nil: the virtual exit).
func (x *Exec) pdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := x.fnPdom[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	// sets as bit slices; small functions
	full := make([]bool, n)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = append([]bool{}, full...)
		if len(fn.Blocks[i].Succs) == 0 {
			pd[i] = make([]bool, n)
			pd[i][i] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			nw := append([]bool{}, full...)
			for _, s := range b.Succs {
				for k := range nw {
					nw[k] = nw[k] && pd[s.Index][k]
				}
			}
			nw[i] = true
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
					pd[i] = nw
					break
				}
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the immediate postdominator is the strict postdominator with most postdominators
		best, bc := -1, -1
		for k := 0; k < n; k++ {
			if k != i && pd[i][k] {
				c := 0
				for _, v := range pd[k] {
					if v {
						c++
					}
				}
				if c > bc {
					best, bc = k, c
				}
			}
		}
		if best >= 0 {
			m[b] = fn.Blocks[best]
		}
	}
	x.fnPdom[fn] = m
	return m
}

const maxUnroll = 400

func (x *Exec) loopHead(fr *Frame, st *State, pred *ssa.BasicBlock, L *loopT, stop *ssa.BasicBlock) []Flow {
	h := L.head
	back := L.blocks[pred] && pred != nil && fr.active[h] != nil
	if back {
		al := fr.active[h]
		if al.dry {
			al.backs = append(al.backs, st)
			return nil
		}
		if al.spec != nil {
			x.checkInv(fr, st, L, al.spec, "preserved", al)
			return nil
		}
		al.count++
		if al.count > maxUnroll {
			panic(unsupported{fmt.Sprintf("loop %d of %s needs an invariant", L.ordinal, shortFn(fr.fn))})
		}
		if al.count > 6 && !x.constTrip(st, al) {
			panic(unsupported{fmt.Sprintf("loop %d of %s needs an invariant", L.ordinal, shortFn(fr.fn))})
		}
		return x.run(fr, st, h, firstNonPhi(h), stop)
	}
	// entry: leave inner activations of other loops
	li := x.loops(fr.fn)
	for k := range fr.active {
		if !li.byHeader[k].blocks[h] {
			delete(fr.active, k)
		}
	}
	spec := x.findSpec(fr, st, L)
	if spec == nil {
		fr.active[h] = &activeLoop{}
		return x.run(fr, st, h, firstNonPhi(h), stop)
	}
	x.usedSpecs[spec.Name] = true
	x.checkInv(fr, st, L, spec, "established", nil)
	// what the loop writes
	var wc = map[int]bool{}
	wh := map[string]map[*Term]bool{} // heap key -> loop-invariant refs written; nil entry key marks fresh-only
	whAll := map[string]bool{}
	wg := map[string]bool{}
	wi := map[int]bool{}
	calls := false // the body calls functions by their contracts
	mark := termCnt
	savedSolver := x.solver
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported{"loop modification analysis does not converge"})
		}
		mark = termCnt
		f2, s2 := fr.clone(), st.clone()
		s2.newEpoch()
		epoch := s2.epoch
		x.havoc(f2, s2, st, wc, wh, whAll, wg, wi, calls)
		x.structInv(f2, s2, L)
		base := s2.clone()
		al := &activeLoop{dry: true}
		f2.active = map[*ssa.BasicBlock]*activeLoop{h: al}
		f2.limit = L.blocks
		x.dry++
		x.assumeInv(f2, s2, L, spec, nil, st)
		x.run(f2, s2, h, firstNonPhi(h), nil)
		x.dry--
		grew := false
		for _, b := range al.backs {
			if len(b.frames) > len(base.frames) && !calls {
				calls, grew = true, true
			}
			cs, hs, gs, is := stateKeysDiff(base, b)
			for _, c := range cs {
				if _, ok := b.cells[c]; !ok {
					// its address escapes in the loop: it lives in the heap from here on
					if _, done := st.promoted[c]; !done {
						x.term(st, &Place{kind: "cell", cell: c, root: st.ctype[c]}, nil)
					}
					delete(wc, c)
					grew = true
					continue
				}
				if !wc[c] {
					wc[c] = true
					grew = true
				}
			}
			for _, k := range hs {
				refs, ok := writtenRefs(b.heap[k], x.heapBase(base, k, b))
				m := wh[k]
				if m == nil {
					m = map[*Term]bool{}
					wh[k] = m
					grew = true
				}
				if !ok {
					if !whAll[k] {
						whAll[k] = true
						grew = true
					}
					continue
				}
				for _, r := range refs {
					if ri, o := refInfoOf(r); o && ri.exact && ri.epoch >= epoch {
						if !m[nil] {
							m[nil] = true
							grew = true
						}
						continue
					}
					if r.ID > mark && !oldTerm(r, mark) {
						// a reference that depends on the iteration
						if ri, o := refInfoOf(r); o && ri.epoch >= epoch {
							_ = ri
						}
						if !whAll[k] {
							whAll[k] = true
							grew = true
						}
						continue
					}
					if !m[r] {
						m[r] = true
						grew = true
					}
				}
			}
			for _, g := range gs {
				if !wg[g] {
					wg[g] = true
					grew = true
				}
			}
			for _, i := range is {
				if !wi[i] {
					wi[i] = true
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	x.solver = savedSolver
	before := st.clone()
	st.newEpoch()
	x.havoc(fr, st, before, wc, wh, whAll, wg, wi, calls)
	x.structInv(fr, st, L)
	al := &activeLoop{spec: spec, entry: before}
	fr.active[h] = al
	x.assumeInv(fr, st, L, spec, al, before)
	return x.run(fr, st, h, firstNonPhi(h), stop)
}

func (x *Exec) constTrip(st *State, al *activeLoop) bool {
	// loops over literals are decided by the simplifier: no branch condition was
	// added since the last visit.
	n := 0
	for _, p := range st.pc {
		if p.branch {
			n++
		}
	}
	if al.dec == nil {
		al.dec = Int(int64(n))
		return true
	}
	// allow up to 64 symbolic branches per loop, the solver prunes the rest
	return al.count < 40
}

// oldTerm: the term mentions only symbols that existed before mark.
func oldTerm(t *Term, mark int) bool {
	if t.ID <= mark {
		return true
	}
	if t.Op == "var" || t.Op == "bvar" {
		return false
	}
	for _, a := range t.Args {
		if !oldTerm(a, mark) {
			return false
		}
	}
	return true
}

func (x *Exec) heapBase(base *State, k string, b *State) *Term {
	if v, ok := base.heap[k]; ok {
		return v
	}
	return x.framedRoot(base.frames, k, x.heapSorts[k])
}

// writtenRefs walks stores from cur down to base.
func writtenRefs(cur, base *Term) ([]*Term, bool) {
	// nodes of the chain below base: a store to a row that base had written replaces it
	below := map[*Term]bool{}
	var upper []*Term
	for t := base; ; {
		below[t] = true
		if t.Op != "store" {
			break
		}
		upper = append(upper, t)
		t = t.Args[0]
	}
	seen := map[*Term]bool{}
	hit := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if below[t] {
			hit[t] = true
			return true
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.Op {
		case "store":
			out = append(out, t.Args[1])
			return walk(t.Args[0])
		case "ite":
			return walk(t.Args[1]) && walk(t.Args[2])
		case "var":
			if fi, ok := frameOf[t]; ok {
				out = append(out, fi.exc...)
				// anything newer than fi.top is newer than the loop as well
				out = append(out, RefPlus(epochBase[epochCnt], 1<<20))
				refTab[out[len(out)-1]] = refInfo{epochCnt, 1 << 20, true}
				return walk(fi.prev)
			}
		}
		return false
	}
	if !walk(cur) {
		return out, false
	}
	// rows of base above the deepest node reached may have been replaced
	low := -1
	for i, t := range upper {
		if hit[t.Args[0]] {
			low = i
		}
	}
	for i := 0; i <= low; i++ {
		out = append(out, upper[i].Args[1])
	}
	var ch []*Term
	for _, r := range out {
		if Select(cur, r) != Select(base, r) {
			ch = append(ch, r)
		}
	}
	return ch, true
}

func (x *Exec) havoc(fr *Frame, st, before *State, wc map[int]bool, wh map[string]map[*Term]bool, whAll map[string]bool, wg map[string]bool, wi map[int]bool, calls bool) {
	top := before.top()
	for _, c := range sortedInts(wc) {
		t, ok := st.ctype[c]
		if !ok {
			panic(unsupported{"havoc of untyped cell"})
		}
		if v, ok := st.cells[c].(*Term); !ok || v == nil {
			// closures / places assigned in loops
			if _, isT := st.cells[c].(*Term); !isT {
				panic(unsupported{fmt.Sprintf("loop assigns a %T variable", st.cells[c])})
			}
		}
		st.cells[c] = x.w.freshVal("v", t, refInfo{st.epoch, 0, false})
	}
	for _, k := range sortedKeys(wh) {
		s := x.heapSorts[k]
		old := x.heapGet(st, k, s)
		if whAll[k] {
			n := Fresh("H", s)
			refTab[n] = refInfo{st.epoch, 0, false}
			st.heap[k] = n
			continue
		}
		var exc []*Term
		for r := range wh[k] {
			if r != nil {
				exc = append(exc, r)
			}
		}
		sort.Slice(exc, func(i, j int) bool { return exc[i].ID < exc[j].ID })
		if !wh[k][nil] {
			cur := old
			for _, r := range exc {
				v := Fresh("h", s.Elem)
				refTab[v] = refInfo{st.epoch, 0, false}
				cur = Store(cur, r, v)
			}
			st.heap[k] = cur
			continue
		}
		n := Fresh("H", s)
		x.framed(n, old, heapFrame{st.epoch, top}, exc)
		st.heap[k] = n
	}
	if calls {
		st.frames = append(st.frames[:len(st.frames):len(st.frames)], heapFrame{st.epoch, top})
	}
	for _, g := range sortedKeys(wg) {
		o := st.globals[g]
		if o == nil {
			o = x.globalsIn[g]
		}
		n := Fresh("g", o.S)
		refTab[n] = refInfo{st.epoch, 0, false}
		st.globals[g] = n
	}
	for _, i := range sortedInts(wi) {
		it := st.iters[i]
		if it.isStr {
			p := Fresh("pos", IntS)
			setBounds(p, new(big.Int), maxLen)
			st.assume(Le(p, StrLen(it.str)))
			it.pos = p
		} else {
			v := Fresh("visited", it.visited.S)
			bv := BVar("k", it.visited.S.Idx)
			it.visited = v
			st.assume(intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{bv}, Args: []*Term{Imp(op("select", BoolS, v, bv), op("select", BoolS, it.dom, bv))}}))
		}
	}
}

func sortedInts(m map[int]bool) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// structInv: bounds of the compiler-generated counters of range loops.
func (x *Exec) structInv(fr *Frame, st *State, L *loopT) {
	for _, in := range L.head.Instrs {
		u, ok := in.(*ssa.UnOp)
		if !ok {
			continue
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		p, ok := fr.regs[al].(*Place)
		if !ok || p.kind != "cell" {
			continue
		}
		v, ok := st.cells[p.cell].(*Term)
		if !ok {
			continue
		}
		switch al.Comment {
		case "rangeindex":
			// head: t20=*idx; t21=t20+1; *idx=t21; t22 = t21<len
			for _, in2 := range L.head.Instrs {
				if b, ok := in2.(*ssa.BinOp); ok && b.Op.String() == "<" {
					if ln, ok := x.tryVal(fr, st, b.Y); ok {
						st.assume(And(Le(Int(-1), v), Or(Lt(v, ln), And(Eq(v, Int(-1)), Eq(ln, Int(0))))))
					}
				}
			}
		case "rangeint.iter":
			for _, in2 := range L.head.Instrs {
				if b, ok := in2.(*ssa.BinOp); ok && b.Op.String() == "<" {
					if ln, ok := x.tryVal(fr, st, b.Y); ok {
						st.assume(And(Le(Int(0), v), Or(Le(v, ln), Eq(v, Int(0)))))
					}
				}
			}
		}
	}
}

func (x *Exec) tryVal(fr *Frame, st *State, v ssa.Value) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	if c, isC := v.(*ssa.Const); isC {
		return x.constVal(c), true
	}
	t, ok = fr.regs[v].(*Term)
	return
}

// ------------------------------------------------------------------ invariants

func (x *Exec) findSpec(fr *Frame, st *State, L *loopT) *LoopSpec {
	// specs of this function first (exact ordinal, then any whose names resolve),
	// then specs of the functions it was called from: the loop may have been moved
	// into a helper.
	try := func(list []*LoopSpec, own bool) *LoopSpec {
		for _, s := range list {
			if own && s.Ordinal == L.ordinal && x.bindable(fr, st, L, s) {
				return s
			}
		}
		for _, s := range list {
			if s.Ordinal == 0 && x.bindable(fr, st, L, s) {
				return s
			}
		}
		for _, s := range list {
			if own && s.Ordinal == L.ordinal {
				continue
			}
			if x.bindable(fr, st, L, s) {
				return s
			}
		}
		return nil
	}
	if fr.ghost {
		return try(x.loopSpecs[fullName(fr.fn)], true)
	}
	if s := try(x.loopSpecs[loopKey(fr.fn)], true); s != nil {
		return s
	}
	if x.literalLoop(fr, st, L) {
		return nil
	}
	for f := fr.caller; f != nil; f = f.caller {
		if s := try(x.loopSpecs[loopKey(f.fn)], false); s != nil {
			return s
		}
	}
	return nil
}

func (x *Exec) literalLoop(fr *Frame, st *State, L *loopT) bool {
	for _, in := range L.head.Instrs {
		if b, ok := in.(*ssa.BinOp); ok && b.Op.String() == "<" {
			if ln, ok := x.tryVal(fr, st, b.Y); ok && ln.IsInt() {
				return true
			}
		}
	}
	return false
}

func loopKey(fn *ssa.Function) string {
	return fullName(fn)
}

func (x *Exec) bindable(fr *Frame, st *State, L *loopT, s *LoopSpec) bool {
	for _, p := range s.Fn.Params {
		if _, ok := x.lookupLocal(fr, st, L, p.Name(), p.Type()); !ok {
			return false
		}
	}
	return true
}

func sameType(a, b types.Type) bool {
	return types.Identical(a, b) || typeKey(a) == typeKey(b)
}

// lookupLocal finds the current value of the local called name.
func (x *Exec) lookupLocal(fr *Frame, st *State, L *loopT, name string, t types.Type) (Value, bool) {
	if strings.HasPrefix(name, "g_") { // an arbitrary value fixed by the contract (its parameter)
		for i, p := range x.driver.Fn.Params {
			if p.Name() == name && sameType(p.Type(), t) {
				return x.inputs[i], true
			}
		}
		return nil, false
	}
	if name == "done_" { // number of completed iterations of this range loop
		for _, in := range L.head.Instrs {
			if u, ok := in.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok && al.Comment == "rangeindex" {
					if p, ok := fr.regs[al].(*Place); ok {
						return Add(x.load(st, p).(*Term), Int(1)), true
					}
				}
				if al, ok := u.X.(*ssa.Alloc); ok && al.Comment == "rangeint.iter" {
					if p, ok := fr.regs[al].(*Place); ok {
						return x.load(st, p).(*Term), true
					}
				}
			}
		}
		// a counting loop: the counter compared in the head (checked like any invariant)
		for _, in := range L.head.Instrs {
			c, ok := in.(*ssa.BinOp)
			if !ok || (c.Op != token.LSS && c.Op != token.NEQ && c.Op != token.GTR) {
				continue
			}
			for _, side := range []ssa.Value{c.X, c.Y} {
				u, ok := side.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				if al, ok := u.X.(*ssa.Alloc); ok && !L.blocks[al.Block()] && x.steppedIn(L, al) {
					if p, ok := fr.regs[al].(*Place); ok {
						return x.load(st, p).(*Term), true
					}
				}
			}
		}
		return nil, false
	}
	if name == "pos_" { // byte position of the string range of this loop
		for b := range L.blocks {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.Next); ok && n.IsString {
					if id, ok := fr.regs[n.Iter].(int); ok {
						return st.iters[id].pos, true
					}
				}
			}
		}
		return nil, false
	}
	if strings.HasSuffix(name, "_in") { // parameter value on entry
		for i, p := range fr.fn.Params {
			if p.Name()+"_in" == name && sameType(p.Type(), t) {
				return fr.args[i], true
			}
		}
		return nil, false
	}
	var best *ssa.Alloc
	var bestV Value
	consider := func(al *ssa.Alloc) {
		if al.Comment != name || !sameType(al.Type().(*types.Pointer).Elem(), t) {
			return
		}
		v, ok := fr.regs[al]
		if !ok {
			return
		}
		p, ok := v.(*Place)
		if !ok {
			return
		}
		if p.kind == "cell" {
			if _, ok := st.cells[p.cell]; !ok {
				if _, pr := st.promoted[p.cell]; !pr {
					return
				}
			}
		}
		// not a variable declared inside this loop
		if L.blocks[al.Block()] {
			return
		}
		if best == nil || al.Pos() > best.Pos() {
			best, bestV = al, v
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok {
				consider(al)
			}
		}
	}
	if best != nil {
		return x.load(st, x.placeOf(bestV, best.Type().(*types.Pointer).Elem())), true
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == name {
			if pt, ok := fv.Type().(*types.Pointer); ok && sameType(pt.Elem(), t) {
				return x.load(st, x.placeOf(fr.regs[fv], pt.Elem())), true
			}
		}
	}
	return nil, false
}

// steppedIn: the variable is stored to inside the loop.
func (x *Exec) steppedIn(L *loopT, al *ssa.Alloc) bool {
	for b := range L.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == al {
				return true
			}
		}
	}
	return false
}

type invCtx struct {
	mode  string // "check" or "assume"
	stage string
	spec  *LoopSpec
	al    *activeLoop
	fr    *Frame
	L     *loopT
	entry *State // the state in which the loop was entered
}

func (x *Exec) runInv(fr *Frame, st *State, L *loopT, s *LoopSpec, ic *invCtx) {
	var args []Value
	for _, p := range s.Fn.Params {
		v, ok := x.lookupLocal(fr, st, L, p.Name(), p.Type())
		if !ok {
			panic(unsupported{"invariant variable " + p.Name() + " of " + s.Name})
		}
		args = append(args, v)
	}
	saved := x.inv
	x.inv = ic
	x.specMode++
	outs := x.callFn(st, s.Fn, args, nil, fr, s.Fn.Pos())
	x.specMode--
	x.inv = saved
	if len(outs) != 1 {
		panic(unsupported{fmt.Sprintf("invariant function %s splits into %d cases", s.Name, len(outs))})
	}
	*st = *outs[0].st
}

func (x *Exec) checkInv(fr *Frame, st *State, L *loopT, s *LoopSpec, stage string, al *activeLoop) {
	entry := st.clone()
	if al != nil {
		entry = al.entry
	}
	x.runInv(fr, st, L, s, &invCtx{mode: "check", stage: stage, spec: s, al: al, fr: fr, L: L, entry: entry})
}

func (x *Exec) assumeInv(fr *Frame, st *State, L *loopT, s *LoopSpec, al *activeLoop, entry *State) {
	x.runInv(fr, st, L, s, &invCtx{mode: "assume", spec: s, al: al, fr: fr, L: L, entry: entry})
}
