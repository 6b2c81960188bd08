package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// script renders a satisfiability query for the conjunction of fs.
type script struct {
	w     *World
	terms map[*Term]bool
	refs  map[*Term]int
	order []*Term
	quant bool
}

// closeFact is the universal closure of a fact g about the term t.
func closeFact(t, g *Term) *Term {
	fb := freeB(g)
	for v := range freeB(t) {
		fb[v] = true
	}
	if len(fb) == 0 {
		return g
	}
	var bv []*Term
	for v := range fb {
		bv = append(bv, v)
	}
	sort.Slice(bv, func(i, j int) bool { return bv[i].ID < bv[j].ID })
	return Forall(bv, g)
}

// renderAlt renders an obligation with the quantifiers as written, "" if that is how it
// is rendered anyway.
func (w *World) renderAlt(fs []*Term, model []*Term, txt string) string {
	w.noShift = true
	defer func() { w.noShift = false }()
	alt, _ := w.render(fs, model, false)
	if alt == txt {
		return ""
	}
	return alt + "(check-sat)\n(get-model)\n"
}

func (w *World) render(fs []*Term, model []*Term, noQuant bool) (string, bool) {
	s := &script{w: w, terms: map[*Term]bool{}, refs: map[*Term]int{}}
	var asserts []*Term
	seenA := map[*Term]bool{}
	var queue []*Term
	queue = append(queue, fs...)
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if seenA[f] || f.IsTrue() {
			continue
		}
		seenA[f] = true
		asserts = append(asserts, f)
		s.walk(f, func(t *Term) {
			if t.hasB {
				if bvarPart(t) || t.Op == "forall" || t.Op == "exists" {
					return
				}
				for _, g := range facts[t] {
					queue = append(queue, closeFact(t, g))
				}
				return
			}
			for _, g := range facts[t] {
				queue = append(queue, g)
			}
		})
	}
	// implementation predicates
	usedAny := map[*Ctor]bool{}
	implApps := map[string]bool{}
	for t := range s.terms {
		switch t.Op {
		case "ctor", "sel", "is":
			if t.Ctor.DT == w.anyDT {
				usedAny[t.Ctor] = true
			}
		case "app":
			if strings.HasPrefix(t.Name, "impl|") {
				implApps[t.Name] = true
			}
		}
	}
	var extra []string
	for _, name := range sortedKeys(implApps) {
		it := w.implTab[name]
		for _, c := range w.anyDT.Ctors {
			if !usedAny[c] || c == w.anyOth {
				continue
			}
			if c == w.anyNil {
				extra = append(extra, "(assert (not ("+q(name)+" any_nil)))")
				continue
			}
			r := types.Implements(w.anyGo[c], it.Underlying().(*types.Interface))
			a := fmt.Sprintf("(%s (%s v))", q(name), q(c.Name))
			if !r {
				a = "(not " + a + ")"
			}
			extra = append(extra, fmt.Sprintf("(assert (forall ((v %s)) %s))", c.Fields[0].S.Name, a))
		}
	}
	usedAny[w.anyNil] = true
	usedAny[w.anyOth] = true

	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	// sorts
	sortsUsed := map[*Sort]bool{}
	var useSort func(x *Sort)
	useSort = func(x *Sort) {
		if x == nil || sortsUsed[x] {
			return
		}
		sortsUsed[x] = true
		useSort(x.Idx)
		useSort(x.Elem)
		if x.DT != nil {
			for _, c := range x.DT.Ctors {
				if x.DT == w.anyDT && !usedAny[c] {
					continue
				}
				for _, f := range c.Fields {
					useSort(f.S)
				}
			}
		}
	}
	for t := range s.terms {
		useSort(t.S)
	}
	for _, m := range model {
		useSort(m.S)
	}
	var us []string
	var dts []*Datatype
	for x := range sortsUsed {
		if x.Unin {
			us = append(us, x.Name)
		}
		if x.DT != nil {
			dts = append(dts, x.DT)
		}
	}
	sort.Strings(us)
	sort.Slice(dts, func(i, j int) bool { return dts[i].Name < dts[j].Name })
	for _, u := range us {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", u)
	}
	if len(dts) > 0 {
		b.WriteString("(declare-datatypes (")
		for _, d := range dts {
			fmt.Fprintf(&b, "(%s 0)", d.Name)
		}
		b.WriteString(") (")
		for _, d := range dts {
			b.WriteString("(")
			for _, c := range d.Ctors {
				if d == w.anyDT && !usedAny[c] {
					continue
				}
				b.WriteString("(" + q(c.Name))
				for _, f := range c.Fields {
					fmt.Fprintf(&b, " (%s %s)", q(f.Name), f.S.Name)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString("))\n")
	}
	// declarations
	decl := map[string]string{}
	for t := range s.terms {
		switch t.Op {
		case "var":
			decl[t.Name] = fmt.Sprintf("(declare-fun %s () %s)\n", q(t.Name), t.S.Name)
		case "app":
			var as []string
			for _, a := range t.Args {
				as = append(as, a.S.Name)
			}
			decl[t.Name] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", q(t.Name), strings.Join(as, " "), t.S.Name)
		}
	}
	for _, m := range model {
		if m.Op == "var" {
			decl[m.Name] = fmt.Sprintf("(declare-fun %s () %s)\n", q(m.Name), m.S.Name)
		}
	}
	for _, k := range sortedKeys(decl) {
		b.WriteString(decl[k])
	}
	for _, e := range extra {
		b.WriteString(e + "\n")
		s.quant = true
	}
	// shared subterms
	names := map[*Term]string{}
	var emit func(t *Term)
	done := map[*Term]bool{}
	emit = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			emit(t.Args[0])
			return
		}
		for _, a := range t.Args {
			emit(a)
		}
		if s.refs[t] > 1 && t.size > 4 && !t.hasB && t.Op != "forall" && t.Op != "exists" {
			n := fmt.Sprintf("$%d", t.ID)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.S.Name, printTerm(t, names))
			names[t] = n
		}
	}
	for _, a := range asserts {
		if noQuant && (a.Op == "forall" || hasQuant(a)) {
			continue
		}
		if !w.noShift {
			a = shiftQuants(a)
		}
		emit(a)
		fmt.Fprintf(&b, "(assert %s)\n", printTerm(a, names))
	}
	return b.String(), s.quant
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantMemo[t] = r
	return r
}

func (s *script) walk(t *Term, f func(*Term)) {
	s.refs[t]++
	if s.terms[t] {
		return
	}
	s.terms[t] = true
	f(t)
	if t.Op == "forall" || t.Op == "exists" {
		s.quant = true
		for _, v := range t.Bnd {
			s.terms[v] = true
		}
	}
	for _, a := range t.Args {
		s.walk(a, f)
	}
}

// ------------------------------------------------------------------ incremental feasibility

type Inc struct {
	w     *World
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cache map[string]bool
	N     int
	Secs  float64
	ms    int // limit of a query
}

func NewInc(w *World) *Inc {
	s := &Inc{w: w, ms: 1500, cache: map[string]bool{}}
	s.start()
	return s
}

func (s *Inc) start() {
	s.cmd = exec.Command("z3-new", "-in", "-memory:4000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
}

func (s *Inc) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Inc) feasible(pc []*Term) bool {
	ids := make([]int, 0, len(pc))
	for _, t := range pc {
		if t.IsFalse() {
			return false
		}
		ids = append(ids, t.ID)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if r, ok := s.cache[key]; ok {
		return r
	}
	txt, _ := s.w.render(pc, nil, true)
	t0 := time.Now()
	s.N++
	// the solver does not always honour its own limit
	proc := s.cmd.Process
	watch := time.AfterFunc(time.Duration(s.ms+2500)*time.Millisecond, func() { proc.Kill() })
	defer watch.Stop()
	fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"done\")\n", s.ms, txt)
	res := ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Wait()
			s.start()
			res = "unknown"
			break
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			break
		}
		if strings.HasPrefix(l, "(error") && debugFlag {
			fmt.Fprintln(os.Stderr, "inc:", l)
			os.WriteFile("/tmp/inc_err.smt2", []byte(txt), 0644)
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		}
	}
	s.Secs += time.Since(t0).Seconds()
	r := res != "unsat"
	s.cache[key] = r
	return r
}

// ------------------------------------------------------------------ portfolio

type solverDef struct {
	name string
	args []string
}

func runSolver(ctx context.Context, d solverDef, txt string, secs float64) (string, string) {
	c, cancel := context.WithTimeout(ctx, time.Duration((secs+2)*float64(time.Second)))
	defer cancel()
	args := append([]string{}, d.args...)
	switch d.name {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", int(secs*1000)), "-")
	default:
		args = append(args, fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:6000", "-in")
	}
	cmd := exec.CommandContext(c, d.name, args...)
	cmd.Stdin = strings.NewReader(txt)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	o := out.String()
	first := ""
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			first = l
			break
		}
		if strings.HasPrefix(l, "(error") && first == "" {
			return "error", o
		}
	}
	if first == "" {
		first = "timeout"
	}
	return first, o
}

var (
	stage1 = []solverDef{{"z3-new", nil}}
	stage2 = []solverDef{
		{"z3-new", []string{"smt.random_seed=0"}},
		{"cvc5", []string{"--strings-exp", "--full-saturate-quant"}},
		{"z3-new", []string{"smt.random_seed=7", "smt.mbqi=false"}},
		{"z3", nil},
		{"z3-new", []string{"smt.string_solver=seq", "smt.arith.solver=2", "smt.random_seed=3"}},
	}
)

// discharge decides one obligation.
// alt, if not empty, is the same obligation with the quantifiers as written.
func (w *World) discharge(txt, alt string, quant bool, t1, t2 float64) (result, by, model string, secs float64) {
	t0 := time.Now()
	defer func() { secs = time.Since(t0).Seconds() }()
	var last string
	satModel := ""
	satBy := ""
	for _, d := range stage1 {
		r, o := runSolver(context.Background(), d, txt, t1)
		switch r {
		case "unsat":
			return "unsat", d.name, "", 0
		case "sat":
			satModel, satBy = o, d.name
		case "error":
			last = o
		}
	}
	if satBy != "" && !quant {
		return "sat", satBy, satModel, 0
	}
	if t2 <= 0 {
		return "unknown", "", last, 0
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct {
		r, o string
		d    solverDef
	}
	ch := make(chan rr, len(stage2)+2)
	n := len(stage2)
	for _, d := range stage2 {
		d := d
		go func() {
			r, o := runSolver(ctx, d, txt, t2)
			ch <- rr{r, o, d}
		}()
	}
	if alt != "" {
		for _, d := range stage2[:2] {
			d := d
			n++
			go func() {
				r, o := runSolver(ctx, d, alt, t2)
				ch <- rr{r, o, d}
			}()
		}
	}
	for ; n > 0; n-- {
		x := <-ch
		switch x.r {
		case "unsat":
			n := x.d.name
			return "unsat", n, "", 0
		case "sat":
			if satBy == "" {
				satBy, satModel = x.d.name, x.o
			}
		case "error":
			last = x.d.name + ": " + firstLine(x.o)
		}
		if satBy != "" && !quant {
			return "sat", satBy, satModel, 0
		}
	}
	if satBy != "" {
		return "sat", satBy, satModel, 0
	}
	return "unknown", "", last, 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
