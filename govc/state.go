package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Tuple []Value

// step of a path inside a value: a struct field or an array index.
type step struct {
	field int
	idx   *Term // non-nil: array index
	t     types.Type
}

type Place struct {
	kind string // cell heapstruct heapcell elem global
	cell int
	ref  *Term
	idx  *Term
	name string
	root types.Type // type of the root value
	path []step
}

func (p *Place) typ() types.Type {
	if len(p.path) == 0 {
		return p.root
	}
	s := p.path[len(p.path)-1]
	if s.idx != nil {
		return s.t.Underlying().(*types.Array).Elem()
	}
	return s.t.Underlying().(*types.Struct).Field(s.field).Type()
}

func (p *Place) sub(s step) *Place {
	n := *p
	n.path = append(append([]step{}, p.path...), s)
	return &n
}

type IterState struct {
	isStr   bool
	str     *Term
	pos     *Term
	m       *Term // map ref
	kt, vt  types.Type
	visited *Term
	dom     *Term // domain at loop start
	ssaIt   ssa.Value
}

type Event struct {
	fn   *Term
	name string
	args []*Term
}

type pcEntry struct {
	t      *Term
	branch bool
}

type State struct {
	pc       []pcEntry
	cells    map[int]Value
	ctype    map[int]types.Type
	promoted map[int]*Term
	heap     map[string]*Term
	globals  map[string]*Term
	iters    map[int]*IterState
	events   []Event
	pre      *State // where vModifies was stated
	epoch    int
	off      int64
	trace    []string
	steps    int
	ghosts   map[string]*Term
	frames   []heapFrame // calls by contract so far
}

// heapFrame: a call that is known by its contract may have allocated objects; above top
// the heap is unknown from there on.
type heapFrame struct {
	epoch int
	top   refInfo
}

// framed is the heap array n that agrees with prev on every reference no later than top.
func (x *Exec) framed(n, prev *Term, f heapFrame, exc []*Term) {
	refTab[n] = refInfo{f.epoch, 0, false}
	frameOf[n] = &frameInfo{prev: prev, top: f.top, exc: exc}
	bv := BVar("r", RefS)
	conds := []*Term{op("<=", BoolS, bv, epochBound(f.top))}
	for _, e := range exc {
		conds = append(conds, Not(op("=", BoolS, bv, e)))
	}
	addFact(n, intern(&Term{Op: "forall", S: BoolS, Bnd: []*Term{bv}, Args: []*Term{Imp(And(conds...), op("=", BoolS, op("select", n.S.Elem, n, bv), op("select", n.S.Elem, prev, bv)))}}))
}

// framedRoot is a heap array that has not been written since the start.
func (x *Exec) framedRoot(frames []heapFrame, key string, s *Sort) *Term {
	if len(frames) == 0 {
		return x.heapRoot(key, s)
	}
	f := frames[len(frames)-1]
	n := Var(fmt.Sprintf("H|%s|after%d", key, f.epoch), s)
	if _, ok := frameOf[n]; !ok {
		x.framed(n, x.framedRoot(frames[:len(frames)-1], key, s), f, nil)
	}
	return n
}

// forgetNew: what lies above top in the heap is unknown.
func (x *Exec) forgetNew(st *State, top refInfo) {
	f := heapFrame{st.epoch, top}
	for _, k := range sortedKeys(st.heap) {
		n := Fresh("H", st.heap[k].S)
		x.framed(n, st.heap[k], f, nil)
		st.heap[k] = n
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], f)
}

func newState() *State {
	return &State{cells: map[int]Value{}, ctype: map[int]types.Type{}, promoted: map[int]*Term{}, heap: map[string]*Term{}, globals: map[string]*Term{}, iters: map[int]*IterState{}, ghosts: map[string]*Term{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	n := *s
	n.pc = append([]pcEntry{}, s.pc...)
	n.cells = cloneMap(s.cells)
	n.ctype = cloneMap(s.ctype)
	n.promoted = cloneMap(s.promoted)
	n.heap = cloneMap(s.heap)
	n.globals = cloneMap(s.globals)
	n.iters = make(map[int]*IterState, len(s.iters))
	for k, v := range s.iters {
		c := *v
		n.iters[k] = &c
	}
	n.events = append([]Event{}, s.events...)
	n.pre = s.pre
	n.trace = append([]string{}, s.trace...)
	n.ghosts = cloneMap(s.ghosts)
	return &n
}

func (s *State) assume(t *Term) {
	if !t.IsTrue() {
		s.pc = append(s.pc, pcEntry{t, false})
	}
}
func (s *State) branch(t *Term) {
	if !t.IsTrue() {
		s.pc = append(s.pc, pcEntry{t, true})
	}
}
func (s *State) dead() bool {
	for _, p := range s.pc {
		if p.t.IsFalse() {
			return true
		}
	}
	return false
}
func (s *State) pcTerms() []*Term {
	var out []*Term
	for _, p := range s.pc {
		out = append(out, p.t)
	}
	return out
}

func (s *State) alloc() *Term {
	s.off++
	if s.epoch == 0 {
		return Ref(s.off)
	}
	r := RefPlus(epochBase[s.epoch], s.off)
	refTab[r] = refInfo{s.epoch, s.off, true}
	return r
}

func (s *State) top() refInfo { return refInfo{s.epoch, s.off, false} }

// newEpoch starts a new allocation epoch above everything allocated so far.
func (s *State) newEpoch() {
	epochCnt++
	b := Fresh("base", RefS)
	old := s.top()
	epochBase[epochCnt] = b
	refTab[b] = refInfo{epochCnt, 0, false}
	addFact(b, op("<=", BoolS, epochBound(old), b))
	s.epoch, s.off = epochCnt, 0
}

// ---------------------------------------------------------------- memory

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) heapRoot(key string, s *Sort) *Term {
	v := Var("H|"+key, s)
	if _, ok := refTab[v]; !ok {
		refTab[v] = refInfo{0, 0, false}
	}
	return v
}

func (x *Exec) heapGet(st *State, key string, s *Sort) *Term {
	x.heapSorts[key] = s
	if v, ok := st.heap[key]; ok {
		return v
	}
	return x.framedRoot(st.frames, key, s)
}

func fieldKey(t types.Type, i int) string {
	return "F|" + typeKey(t) + "|" + t.Underlying().(*types.Struct).Field(i).Name()
}

func (x *Exec) fieldArr(st *State, t types.Type, i int) (*Term, string) {
	k := fieldKey(t, i)
	return x.heapGet(st, k, ArrS(RefS, x.w.sortOf(t.Underlying().(*types.Struct).Field(i).Type()))), k
}

func isStructT(w *World, t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !w.isOpaqueStruct(t) && !stringModel(t)
}

func (x *Exec) placeOf(v Value, elem types.Type) *Place {
	switch v := v.(type) {
	case *Place:
		return v
	case *Term:
		if isStructT(x.w, elem) {
			return &Place{kind: "heapstruct", ref: v, root: elem}
		}
		return &Place{kind: "heapcell", ref: v, root: elem}
	}
	panic(unsupported{fmt.Sprintf("pointer value %T", v)})
}

// deref resolves a promoted cell to its heap object.
func (x *Exec) deref(st *State, p *Place) *Place {
	if p.kind == "cell" {
		if r, ok := st.promoted[p.cell]; ok {
			n := *p
			n.ref = r
			n.kind = "heapcell"
			if isStructT(x.w, p.root) {
				n.kind = "heapstruct"
			}
			return &n
		}
	}
	return p
}

func (x *Exec) pathGet(v *Term, path []step) *Term {
	for _, s := range path {
		if s.idx != nil {
			v = Select(v, s.idx)
		} else {
			v = Sel(x.w.structDT(s.t).Ctors[0], s.field, v)
		}
	}
	return v
}

func (x *Exec) pathSet(v *Term, path []step, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		return Store(v, s.idx, x.pathSet(Select(v, s.idx), path[1:], nv))
	}
	c := x.w.structDT(s.t).Ctors[0]
	args := make([]*Term, len(c.Fields))
	for i := range args {
		args[i] = Sel(c, i, v)
	}
	args[s.field] = x.pathSet(args[s.field], path[1:], nv)
	return MkCtor(c, args...)
}

func (x *Exec) loadHeapStruct(st *State, t types.Type, ref *Term) *Term {
	u := t.Underlying().(*types.Struct)
	c := x.w.structDT(t).Ctors[0]
	var args []*Term
	for i := 0; i < u.NumFields(); i++ {
		a, _ := x.fieldArr(st, t, i)
		v := Select(a, ref)
		x.w.typeFacts(u.Field(i).Type(), v)
		args = append(args, v)
	}
	return MkCtor(c, args...)
}

func (x *Exec) load(st *State, p *Place) Value {
	p = x.deref(st, p)
	if p.kind == "cell" && len(p.path) == 0 {
		v, ok := st.cells[p.cell]
		if !ok {
			panic(unsupported{"load of dead cell"})
		}
		return v
	}
	v := x.load1(st, p)
	x.w.typeFacts(p.typ(), v)
	return v
}

func (x *Exec) load1(st *State, p *Place) *Term {
	switch p.kind {
	case "cell":
		v, ok := st.cells[p.cell].(*Term)
		if !ok {
			panic(unsupported{"path into non-term cell"})
		}
		return x.pathGet(v, p.path)
	case "heapstruct":
		if len(p.path) == 0 {
			return x.loadHeapStruct(st, p.root, p.ref)
		}
		a, _ := x.fieldArr(st, p.root, p.path[0].field)
		return x.pathGet(Select(a, p.ref), p.path[1:])
	case "heapcell":
		a := x.heapGet(st, "C|"+typeKey(p.root), ArrS(RefS, x.w.sortOf(p.root)))
		return x.pathGet(Select(a, p.ref), p.path)
	case "elem":
		if isByte(p.root) {
			return CharAt(Select(x.bytesArr(st), p.ref), p.idx)
		}
		a := x.elemArr(st, p.root)
		return x.pathGet(Select(Select(a, p.ref), p.idx), p.path)
	case "global":
		return x.pathGet(x.globalGet(st, p), p.path)
	}
	panic("load kind " + p.kind)
}

func (x *Exec) globalGet(st *State, p *Place) *Term {
	if v, ok := st.globals[p.name]; ok {
		return v
	}
	return x.globalRoot(p.name, p.root)
}

func (x *Exec) bytesArr(st *State) *Term { return x.heapGet(st, "B", ArrS(RefS, StrS)) }
func (x *Exec) elemArr(st *State, t types.Type) *Term {
	return x.heapGet(st, "E|"+typeKey(t), ArrS(RefS, ArrS(IntS, x.w.sortOf(t))))
}

func (x *Exec) store(st *State, p *Place, v Value) {
	p = x.deref(st, p)
	if p.kind == "cell" && len(p.path) == 0 {
		if _, ok := st.ctype[p.cell]; !ok {
			st.ctype[p.cell] = p.root
		}
		st.cells[p.cell] = v
		return
	}
	t := x.term(st, v, p.typ())
	switch p.kind {
	case "cell":
		cur, ok := st.cells[p.cell].(*Term)
		if !ok {
			panic(unsupported{"path store into non-term cell"})
		}
		st.cells[p.cell] = x.pathSet(cur, p.path, t)
	case "heapstruct":
		if len(p.path) == 0 {
			x.storeHeapStruct(st, p.root, p.ref, t)
			return
		}
		a, k := x.fieldArr(st, p.root, p.path[0].field)
		st.heap[k] = Store(a, p.ref, x.pathSet(Select(a, p.ref), p.path[1:], t))
	case "heapcell":
		k := "C|" + typeKey(p.root)
		a := x.heapGet(st, k, ArrS(RefS, x.w.sortOf(p.root)))
		st.heap[k] = Store(a, p.ref, x.pathSet(Select(a, p.ref), p.path, t))
	case "elem":
		if isByte(p.root) {
			b := x.bytesArr(st)
			c := Select(b, p.ref)
			n := Concat(Substr(c, Int(0), p.idx), FromCode(t), Substr(c, Add(p.idx, Int(1)), Sub(StrLen(c), Add(p.idx, Int(1)))))
			st.heap["B"] = Store(b, p.ref, n)
			return
		}
		k := "E|" + typeKey(p.root)
		a := x.elemArr(st, p.root)
		row := Select(a, p.ref)
		st.heap[k] = Store(a, p.ref, Store(row, p.idx, x.pathSet(Select(row, p.idx), p.path, t)))
	case "global":
		st.globals[p.name] = x.pathSet(x.globalGet(st, p), p.path, t)
	default:
		panic("store kind " + p.kind)
	}
}

func (x *Exec) storeHeapStruct(st *State, t types.Type, ref, v *Term) {
	u := t.Underlying().(*types.Struct)
	c := x.w.structDT(t).Ctors[0]
	for i := 0; i < u.NumFields(); i++ {
		a, k := x.fieldArr(st, t, i)
		st.heap[k] = Store(a, ref, Sel(c, i, v))
	}
}

// term converts a value to a logical term (promoting cells whose address escapes).
func (x *Exec) term(st *State, v Value, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Closure:
		return x.w.closureTerm(v)
	case *Place:
		p := x.deref(st, v)
		if len(p.path) == 0 {
			switch p.kind {
			case "heapstruct", "heapcell":
				return p.ref
			case "cell":
				r := st.alloc()
				cv, ok := st.cells[p.cell]
				if !ok {
					panic(unsupported{"promotion of dead cell"})
				}
				ct := x.term(st, cv, p.root)
				st.promoted[p.cell] = r
				q := *p
				x.store(st, &q, ct)
				delete(st.cells, p.cell)
				return r
			case "global":
				g := Var("&"+p.name, RefS)
				if _, ok := refTab[g]; !ok {
					refTab[g] = refInfo{0, 0, false}
					addFact(g, op("<", BoolS, g, Ref(0)))
				}
				return g
			}
		}
		// interior pointer: an opaque reference tied to the place
		if p.kind == "heapstruct" || p.kind == "elem" {
			args := []*Term{p.ref}
			nm := "iptr|" + typeKey(p.root)
			if p.idx != nil {
				args = append(args, p.idx)
			}
			for _, s := range p.path {
				if s.idx != nil {
					args = append(args, s.idx)
				} else {
					nm += fmt.Sprintf(".%d", s.field)
				}
			}
			g := App(nm, RefS, args...)
			refTab[g] = st.top()
			addFact(g, Not(Eq(g, Ref(0))))
			x.iptrs[g] = p
			return g
		}
		panic(unsupported{"address of " + p.kind + " component escapes"})
	case Tuple:
		panic(unsupported{"tuple as term"})
	case nil:
		panic(unsupported{"nil value as term"})
	}
	panic(unsupported{fmt.Sprintf("value %T as term", v)})
}

func stateKeysDiff(a, b *State) (cells []int, heap []string, globals []string, iters []int) {
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok && !sameValue(v, w) {
			cells = append(cells, k)
		} else if !ok {
			cells = append(cells, k)
		}
	}
	hk := map[string]bool{}
	for k, v := range b.heap {
		if a.heap[k] != v {
			hk[k] = true
		}
	}
	for k := range hk {
		heap = append(heap, k)
	}
	for k, v := range b.globals {
		if a.globals[k] != v {
			globals = append(globals, k)
		}
	}
	for k, v := range a.iters {
		if w, ok := b.iters[k]; ok && (w.pos != v.pos || w.visited != v.visited) {
			iters = append(iters, k)
		}
	}
	sort.Ints(cells)
	sort.Strings(heap)
	sort.Strings(globals)
	sort.Ints(iters)
	return
}

func sameValue(a, b Value) bool {
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		return ok && a == bt
	case *Place:
		bp, ok := b.(*Place)
		if !ok {
			return false
		}
		if a == bp {
			return true
		}
		if a.kind != bp.kind || a.cell != bp.cell || a.ref != bp.ref || a.idx != bp.idx || a.name != bp.name || len(a.path) != len(bp.path) {
			return false
		}
		for i := range a.path {
			if a.path[i].field != bp.path[i].field || a.path[i].idx != bp.path[i].idx {
				return false
			}
		}
		return true
	case *Closure:
		bc, ok := b.(*Closure)
		if !ok {
			return false
		}
		if a == bc {
			return true
		}
		if a.Fn != bc.Fn || len(a.Binds) != len(bc.Binds) {
			return false
		}
		for i := range a.Binds {
			if !sameValue(a.Binds[i], bc.Binds[i]) {
				return false
			}
		}
		return true
	case Tuple:
		bt, ok := b.(Tuple)
		if !ok || len(a) != len(bt) {
			return false
		}
		for i := range a {
			if !sameValue(a[i], bt[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return a == b
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		return pre + s[i+1:]
	}
	return s
}
