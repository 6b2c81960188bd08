package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort struct {
	Name string // SMT text
	Idx  *Sort  // arrays
	Elem *Sort
	DT   *Datatype
	Unin bool
}

type Field struct {
	Name string
	S    *Sort
}
type Ctor struct {
	Name   string
	Fields []Field
	DT     *Datatype
}
type Datatype struct {
	Name  string
	Ctors []*Ctor
	S     *Sort
}

var (
	BoolS = &Sort{Name: "Bool"}
	IntS  = &Sort{Name: "Int"}
	RealS = &Sort{Name: "Real"}
	StrS  = &Sort{Name: "String"}
	// RefS is the sort of references (pointers, maps, functions, backing
	// arrays); integers in SMT-LIB, kept apart from Go integers here.
	RefS = &Sort{Name: "Int"}
)

var arrSorts = map[[2]*Sort]*Sort{}

func ArrS(i, e *Sort) *Sort {
	k := [2]*Sort{i, e}
	if s, ok := arrSorts[k]; ok {
		return s
	}
	s := &Sort{Name: "(Array " + i.Name + " " + e.Name + ")", Idx: i, Elem: e}
	arrSorts[k] = s
	return s
}

var uninSorts = map[string]*Sort{}

func UninS(name string) *Sort {
	if s, ok := uninSorts[name]; ok {
		return s
	}
	s := &Sort{Name: name, Unin: true}
	uninSorts[name] = s
	return s
}

// ---------------------------------------------------------------- terms

type Term struct {
	Op   string // "int" "bool" "str" "real" "var" "app" "ctor" "sel" "is" "forall" "exists" "constarr" or an SMT operator
	Name string // var/app/ctor/sel name
	Args []*Term
	S    *Sort
	I    *big.Int
	R    *big.Rat
	Str  string // Go string for "str"
	Ctor *Ctor
	FIdx int
	Bnd  []*Term // quantifiers
	ID   int
	hasB bool // mentions a bound variable (of any enclosing quantifier)
	size int
}

var termTab = map[string]*Term{}
var termCnt int

// facts are formulas known to hold about a term whenever it denotes a value of
// the program (type ranges, allocation bounds); they are added to any query that
// mentions the term.
var facts = map[*Term][]*Term{}

func addFact(t, f *Term) {
	if f.IsTrue() || isConst(t) {
		return
	}
	for _, g := range facts[t] {
		if g == f {
			return
		}
	}
	facts[t] = append(facts[t], f)
}

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.S != nil {
		b.WriteString(t.S.Name)
		if t.S == RefS {
			b.WriteByte('R')
		}
	}
	if t.I != nil {
		b.WriteByte('#')
		b.WriteString(t.I.String())
	}
	if t.R != nil {
		b.WriteByte('#')
		b.WriteString(t.R.String())
	}
	if t.Op == "str" {
		b.WriteByte('"')
		b.WriteString(t.Str)
	}
	if t.Op == "sel" || t.Op == "is" || t.Op == "ctor" {
		fmt.Fprintf(&b, "!%s.%d", t.Ctor.Name, t.FIdx)
	}
	for _, a := range t.Bnd {
		fmt.Fprintf(&b, ";%d", a.ID)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.ID = termCnt
	t.size = 1
	for _, a := range t.Args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasB {
			t.hasB = true
		}
	}
	if t.Op == "bvar" {
		t.hasB = true
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.hasB = len(freeB(t)) > 0
	}
	termTab[k] = t
	return t
}

func freeB(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if t.Op == "bvar" {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.Bnd {
				nb[v] = true
			}
			walk(t.Args[0], nb)
			return
		}
		for _, a := range t.Args {
			if a.hasB || a.Op == "forall" || a.Op == "exists" {
				walk(a, bound)
			}
		}
	}
	walk(t, map[*Term]bool{})
	return out
}

var (
	True  = intern(&Term{Op: "bool", Name: "true", S: BoolS})
	False = intern(&Term{Op: "bool", Name: "false", S: BoolS})
)

func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }
func (t *Term) IsInt() bool   { return t.Op == "int" }

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	return intern(&Term{Op: "int", S: IntS, I: new(big.Int).Set(n)})
}

// Ref is a reference literal: 0 is nil, positive literals are allocations of epoch 0.
func Ref(n int64) *Term { return intern(&Term{Op: "ref", S: RefS, I: big.NewInt(n)}) }

func RefPlus(base *Term, n int64) *Term {
	if base == nil {
		return Ref(n)
	}
	if n == 0 {
		return base
	}
	return intern(&Term{Op: "+", S: RefS, Args: []*Term{base, Int(n)}})
}
func Rat(r *big.Rat) *Term {
	return intern(&Term{Op: "real", S: RealS, R: new(big.Rat).Set(r)})
}
func Str(s string) *Term { return intern(&Term{Op: "str", S: StrS, Str: s}) }

func Var(name string, s *Sort) *Term { return intern(&Term{Op: "var", Name: name, S: s}) }

var freshCnt = map[string]int{}

func Fresh(hint string, s *Sort) *Term {
	hint = sanitize(hint)
	freshCnt[hint]++
	return Var(fmt.Sprintf("%s!%d", hint, freshCnt[hint]), s)
}

var bvCnt int

func BVar(hint string, s *Sort) *Term {
	bvCnt++
	return intern(&Term{Op: "bvar", Name: fmt.Sprintf("%s?%d", sanitize(hint), bvCnt), S: s})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func isConst(t *Term) bool {
	return t.Op == "int" || t.Op == "ref" || t.Op == "bool" || t.Op == "str" || t.Op == "real"
}

// App is an application of an uninterpreted (or externally defined) function.
func App(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: name, S: s, Args: args})
}

func op(o string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: o, S: s, Args: args})
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "<":
		return Le(a.Args[1], a.Args[0])
	case a.Op == "<=":
		return Lt(a.Args[1], a.Args[0])
	}
	return op("not", BoolS, a)
}

func flat(o string, in []*Term) []*Term {
	var out []*Term
	for _, a := range in {
		if a.Op == o {
			out = append(out, flat(o, a.Args)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func And(in ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, a := range flat("and", in) {
		if a == True || seen[a] {
			continue
		}
		if a == False || seen[Not(a)] {
			return False
		}
		seen[a] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return op("and", BoolS, out...)
}

func Or(in ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, a := range flat("or", in) {
		if a == False || seen[a] {
			continue
		}
		if a == True || seen[Not(a)] {
			return True
		}
		seen[a] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return op("or", BoolS, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return op("=>", BoolS, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S == BoolS {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Op == "ctor" && b.Op == "ctor" && a.Ctor == b.Ctor {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return MkCtor(a.Ctor, args...)
	}
	return op("ite", a.S, c, a, b)
}

// eqDecide: 1 equal, -1 distinct, 0 unknown.
func eqDecide(a, b *Term) int {
	if a == b {
		return 1
	}
	if isConst(a) && isConst(b) {
		return -1
	}
	if a.S == IntS || a.S == RefS {
		// linear offset comparison
		ab, ao := splitOff(a)
		bb, bo := splitOff(b)
		if ab == bb && ab != nil {
			if ao.Cmp(bo) == 0 {
				return 1
			}
			return -1
		}
		if a.S == RefS && refDistinct(a, b) {
			return -1
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Ctor != b.Ctor {
			return -1
		}
		all := 1
		for i := range a.Args {
			d := eqDecide(a.Args[i], b.Args[i])
			if d == -1 {
				return -1
			}
			if d == 0 {
				all = 0
			}
		}
		return all
	}
	return 0
}

func splitOff(t *Term) (*Term, *big.Int) {
	if t.Op == "int" || t.Op == "ref" {
		return nil, t.I
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].I
	}
	return t, new(big.Int)
}

// ---- allocation order on references.  An epoch is a point in execution; epoch 0
// ends with the pre-state (all refs <= 0).  ub: the reference was allocated no
// later than (epoch, off); exact: it is exactly that allocation.
type refInfo struct {
	epoch int
	off   int64
	exact bool
}

var refTab = map[*Term]refInfo{}

func refInfoOf(t *Term) (refInfo, bool) {
	if r, ok := refTab[t]; ok {
		return r, true
	}
	if t.Op == "ref" {
		if t.I.Sign() <= 0 {
			return refInfo{0, 0, false}, true
		}
		if t.I.IsInt64() {
			return refInfo{0, t.I.Int64(), true}, true
		}
		return refInfo{}, false
	}
	if t.Op == "ite" {
		a, ok1 := refInfoOf(t.Args[1])
		b, ok2 := refInfoOf(t.Args[2])
		if ok1 && ok2 {
			a.exact, b.exact = false, false
			if b.epoch > a.epoch || b.epoch == a.epoch && b.off > a.off {
				return b, true
			}
			return a, true
		}
		return refInfo{}, false
	}
	if e, ok := rootEpoch(t); ok {
		return e, true
	}
	return refInfo{}, false
}

// rootEpoch: terms obtained by selecting from a root (an input or a heap array
// constant) inherit the root's epoch.
func rootEpoch(t *Term) (refInfo, bool) {
	switch t.Op {
	case "var", "bvar":
		r, ok := refTab[t]
		r.exact = false
		return r, ok
	case "select", "sel":
		return rootEpoch(t.Args[0])
	case "app":
		r, ok := refTab[t]
		r.exact = false
		return r, ok
	}
	return refInfo{}, false
}

func refDistinct(a, b *Term) bool {
	x, ok1 := refInfoOf(a)
	y, ok2 := refInfoOf(b)
	if !ok1 || !ok2 {
		return false
	}
	if x.exact && y.exact {
		return x.epoch != y.epoch || x.off != y.off
	}
	if y.exact {
		x, y = y, x
	}
	if !x.exact {
		return false
	}
	// x exact, y bounded above
	return x.epoch > y.epoch || x.epoch == y.epoch && x.off > y.off
}

func Eq(a, b *Term) *Term {
	switch eqDecide(a, b) {
	case 1:
		return True
	case -1:
		return False
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch %s vs %s: %s = %s", a.S.Name, b.S.Name, a, b))
	}
	if a.S == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// push equality with a constant into ite
	if isConst(b) && a.Op == "ite" && (isConst(a.Args[1]) || isConst(a.Args[2])) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if isConst(a) && b.Op == "ite" {
		return Eq(b, a)
	}
	if a.Op == "ctor" && b.Op == "ctor" && a.Ctor == b.Ctor {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// ctor vs non-ctor for single-constructor datatypes: componentwise
	if a.Op == "ctor" && b.Op != "ctor" && b.S.DT != nil && len(b.S.DT.Ctors) == 1 && len(a.Args) > 0 {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], Sel(a.Ctor, i, b)))
		}
		return And(cs...)
	}
	if b.Op == "ctor" && a.Op != "ctor" && a.S.DT != nil && len(a.S.DT.Ctors) == 1 && len(b.Args) > 0 {
		return Eq(b, a)
	}
	if a.Op == "ctor" && len(a.Args) == 0 && b.S.DT != nil {
		return Is(a.Ctor, b)
	}
	if b.Op == "ctor" && len(b.Args) == 0 && a.S.DT != nil {
		return Is(b.Ctor, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return op("=", BoolS, a, b)
}

func Add(a, b *Term) *Term {
	if a.S == RealS {
		if a.Op == "real" && b.Op == "real" {
			return Rat(new(big.Rat).Add(a.R, b.R))
		}
		return op("+", RealS, a, b)
	}
	if a.IsInt() && b.IsInt() {
		return BigInt(new(big.Int).Add(a.I, b.I))
	}
	if a.IsInt() {
		a, b = b, a
	}
	if b.IsInt() {
		if b.I.Sign() == 0 {
			return a
		}
		if base, off := splitOff(a); base != a && base != nil {
			return Add(base, BigInt(new(big.Int).Add(off, b.I)))
		}
	}
	return op("+", IntS, a, b)
}

func Sub(a, b *Term) *Term {
	if a.S == RealS {
		if a.Op == "real" && b.Op == "real" {
			return Rat(new(big.Rat).Sub(a.R, b.R))
		}
		return op("-", RealS, a, b)
	}
	if b.IsInt() {
		return Add(a, BigInt(new(big.Int).Neg(b.I)))
	}
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if ab == bb {
		return BigInt(new(big.Int).Sub(ao, bo))
	}
	if ab != nil && ab.Op == "+" && len(ab.Args) == 2 && bo.Sign() == 0 {
		if ab.Args[0] == b {
			return Add(ab.Args[1], BigInt(ao))
		}
		if ab.Args[1] == b {
			return Add(ab.Args[0], BigInt(ao))
		}
	}
	return op("-", IntS, a, b)
}

func Neg(a *Term) *Term {
	if a.S == RealS {
		if a.Op == "real" {
			return Rat(new(big.Rat).Neg(a.R))
		}
		return op("-", RealS, a)
	}
	return Sub(Int(0), a)
}

func Mul(a, b *Term) *Term {
	if a.S == RealS {
		if a.Op == "real" && b.Op == "real" {
			return Rat(new(big.Rat).Mul(a.R, b.R))
		}
		return op("*", RealS, a, b)
	}
	if a.IsInt() && b.IsInt() {
		return BigInt(new(big.Int).Mul(a.I, b.I))
	}
	if a.IsInt() {
		a, b = b, a
	}
	if b.IsInt() {
		if b.I.Sign() == 0 {
			return b
		}
		if b.I.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return op("*", IntS, a, b)
}

// Euclidean div/mod as in SMT-LIB.
func EDiv(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() && b.I.Sign() != 0 {
		return BigInt(new(big.Int).Div(a.I, b.I))
	}
	return op("div", IntS, a, b)
}
func EMod(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() && b.I.Sign() != 0 {
		return BigInt(new(big.Int).Mod(a.I, b.I))
	}
	return op("mod", IntS, a, b)
}
func RDiv(a, b *Term) *Term {
	if a.Op == "real" && b.Op == "real" && b.R.Sign() != 0 {
		return Rat(new(big.Rat).Quo(a.R, b.R))
	}
	return op("/", RealS, a, b)
}

func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }
func cmp(o string, a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		c := a.I.Cmp(b.I)
		return Bool(c < 0 || o == "<=" && c == 0)
	}
	if a.Op == "real" && b.Op == "real" {
		c := a.R.Cmp(b.R)
		return Bool(c < 0 || o == "<=" && c == 0)
	}
	if a == b {
		return Bool(o == "<=")
	}
	if a.S == IntS {
		ab, ao := splitOff(a)
		bb, bo := splitOff(b)
		if ab == bb {
			c := ao.Cmp(bo)
			return Bool(c < 0 || o == "<=" && c == 0)
		}
		// simple bounds
		if lo, hi, ok := bounds(a); ok {
			if lo2, hi2, ok2 := bounds(b); ok2 {
				if o == "<" {
					if hi != nil && lo2 != nil && hi.Cmp(lo2) < 0 {
						return True
					}
					if lo != nil && hi2 != nil && lo.Cmp(hi2) >= 0 {
						return False
					}
				} else {
					if hi != nil && lo2 != nil && hi.Cmp(lo2) <= 0 {
						return True
					}
					if lo != nil && hi2 != nil && lo.Cmp(hi2) > 0 {
						return False
					}
				}
			}
		}
	}
	return op(o, BoolS, a, b)
}

// bounds gives cheap syntactic integer bounds.
func bounds(t *Term) (lo, hi *big.Int, ok bool) {
	switch t.Op {
	case "int":
		return t.I, t.I, true
	case "str.len":
		lo, hi = big.NewInt(0), maxLen
		return lo, hi, true
	case "mod":
		if t.Args[1].IsInt() && t.Args[1].I.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].I, big.NewInt(1)), true
		}
	case "ite":
		l1, h1, ok1 := bounds(t.Args[1])
		l2, h2, ok2 := bounds(t.Args[2])
		if ok1 && ok2 {
			if l1 != nil && l2 != nil {
				lo = l1
				if l2.Cmp(l1) < 0 {
					lo = l2
				}
			}
			if h1 != nil && h2 != nil {
				hi = h1
				if h2.Cmp(h1) > 0 {
					hi = h2
				}
			}
			return lo, hi, true
		}
	case "+":
		if len(t.Args) == 2 {
			l1, h1, ok1 := bounds(t.Args[0])
			l2, h2, ok2 := bounds(t.Args[1])
			if ok1 && ok2 {
				if l1 != nil && l2 != nil {
					lo = new(big.Int).Add(l1, l2)
				}
				if h1 != nil && h2 != nil {
					hi = new(big.Int).Add(h1, h2)
				}
				return lo, hi, true
			}
		}
	case "-":
		if len(t.Args) == 2 {
			l1, h1, ok1 := bounds(t.Args[0])
			l2, h2, ok2 := bounds(t.Args[1])
			if ok1 && ok2 {
				if l1 != nil && h2 != nil {
					lo = new(big.Int).Sub(l1, h2)
				}
				if h1 != nil && l2 != nil {
					hi = new(big.Int).Sub(h1, l2)
				}
				return lo, hi, true
			}
		}
	case "*":
		if len(t.Args) == 2 && t.Args[1].IsInt() {
			l, h, ok1 := bounds(t.Args[0])
			if ok1 && l != nil && h != nil {
				x := new(big.Int).Mul(l, t.Args[1].I)
				y := new(big.Int).Mul(h, t.Args[1].I)
				if x.Cmp(y) > 0 {
					x, y = y, x
				}
				return x, y, true
			}
		}
	}
	if b, ok := bndTab[t]; ok {
		return b[0], b[1], true
	}
	return nil, nil, false
}

var bndTab = map[*Term][2]*big.Int{}

// maxLen bounds lengths and capacities: 2^48 bytes of address space.
var maxLen = new(big.Int).SetInt64(1 << 48)

func setBounds(t *Term, lo, hi *big.Int) {
	if isConst(t) {
		return
	}
	if _, ok := bndTab[t]; ok {
		return
	}
	bndTab[t] = [2]*big.Int{lo, hi}
	var cs []*Term
	if lo != nil {
		cs = append(cs, op("<=", BoolS, BigInt(lo), t))
	}
	if hi != nil {
		cs = append(cs, op("<=", BoolS, t, BigInt(hi)))
	}
	addFact(t, And(cs...))
}

// ---- arrays

// frameOf: a heap array constant introduced at a loop head that agrees with prev on
// every reference allocated no later than top, except exc.
type frameInfo struct {
	prev *Term
	top  refInfo
	exc  []*Term
}

var frameOf = map[*Term]*frameInfo{}

func (f *frameInfo) covers(i *Term) bool {
	if i.S != RefS {
		return false
	}
	r, ok := refInfoOf(i)
	if !ok {
		return false
	}
	if r.epoch > f.top.epoch || r.epoch == f.top.epoch && r.off > f.top.off {
		return false
	}
	for _, e := range f.exc {
		if eqDecide(e, i) != -1 {
			return false
		}
	}
	return true
}

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			switch eqDecide(a.Args[1], i) {
			case 1:
				return a.Args[2]
			case -1:
				a = a.Args[0]
				continue
			}
			if a.size < 4000 && a.Args[2].S.Idx == nil {
				// leave
			}
		case "constarr":
			return a.Args[0]
		case "var":
			if fi, ok := frameOf[a]; ok && fi.covers(i) {
				a = fi.prev
				continue
			}
		case "ite":
			if a.size < 2000 {
				return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
			}
		}
		break
	}
	return op("select", a.S.Elem, a, i)
}

func Store(a, i, v *Term) *Term {
	if v.S != a.S.Elem {
		panic(fmt.Sprintf("Store sort mismatch: array %s value %s %s", a.S.Name, v.S.Name, v))
	}
	if a.Op == "store" && eqDecide(a.Args[1], i) == 1 {
		return Store(a.Args[0], i, v)
	}
	if a.Op == "store" && eqDecide(a.Args[1], i) == -1 {
		// push through when the same index is stored deeper
		b := a
		n := 0
		for b.Op == "store" && eqDecide(b.Args[1], i) == -1 && n < 64 {
			b = b.Args[0]
			n++
		}
		if b.Op == "store" && eqDecide(b.Args[1], i) == 1 {
			return op("store", a.S, Store(a.Args[0], i, v), a.Args[1], a.Args[2])
		}
	}
	return op("store", a.S, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{Op: "constarr", S: s, Args: []*Term{v}})
}

// ---- datatypes

func MkCtor(c *Ctor, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(c.DT.Ctors) == 1 && len(args) > 0 && args[0].Op == "sel" && args[0].Ctor == c && args[0].FIdx == 0 {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if !(a.Op == "sel" && a.Ctor == c && a.FIdx == i && a.Args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	for i, a := range args {
		if a.S != c.Fields[i].S {
			panic(fmt.Sprintf("ctor %s field %d: sort %s expected %s", c.Name, i, a.S.Name, c.Fields[i].S.Name))
		}
	}
	return intern(&Term{Op: "ctor", Ctor: c, S: c.DT.S, Args: args})
}

func Sel(c *Ctor, i int, x *Term) *Term {
	if x.Op == "ctor" {
		if x.Ctor == c {
			return x.Args[i]
		}
	}
	if x.Op == "ite" {
		a, b := x.Args[1], x.Args[2]
		if a.Op == "ctor" || b.Op == "ctor" || a.Op == "ite" || b.Op == "ite" {
			if (a.Op == "ctor" && a.Ctor != c) && x.size < 5000 {
				return Sel(c, i, b)
			}
			if (b.Op == "ctor" && b.Ctor != c) && x.size < 5000 {
				return Sel(c, i, a)
			}
			return Ite(x.Args[0], Sel(c, i, a), Sel(c, i, b))
		}
	}
	return intern(&Term{Op: "sel", Ctor: c, FIdx: i, S: c.Fields[i].S, Args: []*Term{x}})
}

func Is(c *Ctor, x *Term) *Term {
	if len(c.DT.Ctors) == 1 && c.DT.Name != "Any" {
		return True
	}
	if x.Op == "ctor" {
		return Bool(x.Ctor == c)
	}
	if x.Op == "ite" {
		a, b := x.Args[1], x.Args[2]
		if a.Op == "ctor" || b.Op == "ctor" {
			return Ite(x.Args[0], Is(c, a), Is(c, b))
		}
	}
	return intern(&Term{Op: "is", Ctor: c, S: BoolS, Args: []*Term{x}})
}

// ---- strings (Go bytes as SMT characters 0..255)

func StrLen(a *Term) *Term {
	if a.Op == "str" {
		return Int(int64(len(a.Str)))
	}
	if a.Op == "str.++" {
		s := Int(0)
		for _, x := range a.Args {
			s = Add(s, StrLen(x))
		}
		return s
	}
	if a.Op == "ite" && (isConst(a.Args[1]) || isConst(a.Args[2])) {
		return Ite(a.Args[0], StrLen(a.Args[1]), StrLen(a.Args[2]))
	}
	t := op("str.len", IntS, a)
	return t
}

func Concat(in ...*Term) *Term {
	var out []*Term
	for _, a := range flat("str.++", in) {
		if a.Op == "str" {
			if a.Str == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = Str(out[len(out)-1].Str + a.Str)
				continue
			}
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return op("str.++", StrS, out...)
}

// CharAt is the byte at position i (code point 0..255), assuming i is in range.
func CharAt(s, i *Term) *Term {
	if s.Op == "str" && i.IsInt() && i.I.IsInt64() {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.Str)) {
			return Int(int64(s.Str[k]))
		}
	}
	if s.Op == "str.++" && i.IsInt() && s.Args[0].Op == "str" && i.I.IsInt64() && i.I.Sign() >= 0 && i.I.Int64() < int64(len(s.Args[0].Str)) {
		return Int(int64(s.Args[0].Str[i.I.Int64()]))
	}
	t := op("str.to_code", IntS, op("str.at", StrS, s, i))
	// in-range positions hold bytes
	if _, ok := bndTab[t]; !ok {
		bndTab[t] = [2]*big.Int{big.NewInt(-1), big.NewInt(255)}
		addFact(t, And(Imp(And(Le(Int(0), i), Lt(i, StrLen(s))), And(op("<=", BoolS, Int(0), t), op("<=", BoolS, t, Int(255)))),
			op("<=", BoolS, Int(-1), t), op("<=", BoolS, t, Int(255))))
	}
	return t
}

// FromCode: one-byte string.
func FromCode(c *Term) *Term {
	if c.IsInt() && c.I.IsInt64() && c.I.Int64() >= 0 && c.I.Int64() < 256 {
		return Str(string([]byte{byte(c.I.Int64())}))
	}
	t := op("str.from_code", StrS, c)
	addFact(t, Eq(op("str.len", IntS, t), Int(1)))
	return t
}

func Substr(s, off, n *Term) *Term {
	if s.Op == "app" && s.Name == "bytesAt" && off == Int(0) && n == s.Args[2] {
		return s // its length is n (nothing else is said of it if it lies outside the file)
	}
	if s.Op == "str" && off.IsInt() && n.IsInt() && off.I.IsInt64() && n.I.IsInt64() {
		o, l := off.I.Int64(), n.I.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.Str)) {
			return Str(s.Str[o : o+l])
		}
	}
	if off.IsInt() && off.I.Sign() == 0 && n == StrLen(s) {
		return s
	}
	if n.IsInt() && n.I.Sign() == 0 {
		return Str("")
	}
	return op("str.substr", StrS, s, off, n)
}

func strOp(name string, s *Sort, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !isConst(a) {
			all = false
		}
	}
	if all {
		switch name {
		case "str.prefixof":
			return Bool(strings.HasPrefix(args[1].Str, args[0].Str))
		case "str.suffixof":
			return Bool(strings.HasSuffix(args[1].Str, args[0].Str))
		case "str.contains":
			return Bool(strings.Contains(args[0].Str, args[1].Str))
		}
	}
	return op(name, s, args...)
}

func Forall(bv []*Term, body *Term) *Term { return quant("forall", bv, body) }
func Exists(bv []*Term, body *Term) *Term { return quant("exists", bv, body) }

// bvarPart: t is a bound variable or a component of one. What is known of such a term is
// a restriction of the quantifier's range; facts about any other term hold universally
// and are added to the query in closed form (see render).
func bvarPart(t *Term) bool {
	for t.Op == "sel" {
		t = t.Args[0]
	}
	return t.Op == "bvar"
}

func quant(q string, bv []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	// facts about terms that mention the bound variables go inside
	isB := map[*Term]bool{}
	for _, v := range bv {
		isB[v] = true
	}
	var fs []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasB {
			return
		}
		seen[t] = true
		if fl := facts[t]; len(fl) > 0 && bvarPart(t) {
			fb := freeB(t)
			mine := false
			for v := range fb {
				if isB[v] {
					mine = true
				}
			}
			if mine {
				for _, f := range fl {
					fs = append(fs, f)
					walk(f)
				}
			}
		}
		if t.Op == "forall" || t.Op == "exists" {
			walk(t.Args[0])
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	if len(fs) > 0 {
		if q == "forall" {
			body = Imp(And(fs...), body)
		} else {
			body = And(append(fs, body)...)
		}
	}
	return intern(&Term{Op: q, S: BoolS, Bnd: bv, Args: []*Term{body}})
}

// ---- substitution of bound variables / vars

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "+":
		if t.S == RefS {
			break
		}
		return Add(args[0], args[1])
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
		return Neg(args[0])
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return EDiv(args[0], args[1])
	case "mod":
		return EMod(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "sel":
		return Sel(t.Ctor, t.FIdx, args[0])
	case "is":
		return Is(t.Ctor, args[0])
	case "ctor":
		return MkCtor(t.Ctor, args...)
	case "str.len":
		return StrLen(args[0])
	case "str.++":
		return Concat(args...)
	}
	n := *t
	n.Args = args
	return intern(&n)
}

// ---------------------------------------------------------------- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func q(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!') {
			return "|" + strings.ReplaceAll(n, "|", "_") + "|"
		}
	}
	return n
}

// printTerm prints; names maps shared subterms to let/define names.
func printTerm(t *Term, names map[*Term]string) string {
	var b strings.Builder
	var p func(t *Term, top bool)
	p = func(t *Term, top bool) {
		if names != nil && !top {
			if n, ok := names[t]; ok {
				b.WriteString(n)
				return
			}
		}
		switch t.Op {
		case "int", "ref":
			b.WriteString(smtInt(t.I))
		case "bool":
			b.WriteString(t.Name)
		case "real":
			r := t.R
			num, den := r.Num(), r.Denom()
			s := new(big.Int).Abs(num).String() + ".0"
			if den.Cmp(big.NewInt(1)) != 0 {
				s = "(/ " + s + " " + den.String() + ".0)"
			}
			if num.Sign() < 0 {
				s = "(- " + s + ")"
			}
			b.WriteString(s)
		case "str":
			b.WriteString(smtStr(t.Str))
		case "in_re":
			b.WriteString("(str.in_re ")
			p(t.Args[0], false)
			b.WriteString(" " + t.Name + ")")
		case "var", "bvar":
			b.WriteString(q(t.Name))
		case "app":
			if len(t.Args) == 0 {
				b.WriteString(q(t.Name))
				return
			}
			b.WriteString("(" + q(t.Name))
			for _, a := range t.Args {
				b.WriteByte(' ')
				p(a, false)
			}
			b.WriteByte(')')
		case "ctor":
			if len(t.Args) == 0 {
				b.WriteString(q(t.Ctor.Name))
				return
			}
			b.WriteString("(" + q(t.Ctor.Name))
			for _, a := range t.Args {
				b.WriteByte(' ')
				p(a, false)
			}
			b.WriteByte(')')
		case "sel":
			b.WriteString("(" + q(t.Ctor.Fields[t.FIdx].Name) + " ")
			p(t.Args[0], false)
			b.WriteByte(')')
		case "is":
			b.WriteString("((_ is " + q(t.Ctor.Name) + ") ")
			p(t.Args[0], false)
			b.WriteByte(')')
		case "constarr":
			b.WriteString("((as const " + t.S.Name + ") ")
			p(t.Args[0], false)
			b.WriteByte(')')
		case "forall", "exists":
			b.WriteString("(" + t.Op + " (")
			for _, v := range t.Bnd {
				b.WriteString("(" + q(v.Name) + " " + v.S.Name + ")")
			}
			b.WriteString(") ")
			p(t.Args[0], false)
			b.WriteByte(')')
		default:
			b.WriteString("(" + t.Op)
			for _, a := range t.Args {
				b.WriteByte(' ')
				p(a, false)
			}
			b.WriteByte(')')
		}
	}
	p(t, true)
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
