package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result is what govc reports for one property.
type Result struct {
	Property    string
	Contracts   []string
	Functions   []string // repository functions executed symbolically under the contracts
	Obligations int
	Discharged  int
	By          map[string]int
	SolverSecs  float64
	Feas        int
	FeasSecs    float64
	LoadSecs    float64
	ExecSecs    float64
	Failed      []Failure
	Assumptions []string
	LoopSpecs   []string
	Modular     []string
	Covers      int
	Names       []string
}

type Failure struct {
	Name   string
	Kind   string
	Fn     string
	Pos    string
	Result string
	Model  string
	Trace  []string
	Note   string
	Script string
}

type driverRun struct {
	d     *Driver
	x     *Exec
	err   string
	obls  []*Obl
	cov   []*Obl
	secs  float64
	paths int
}

func (p *Program) newExec(d *Driver, inc *Inc) *Exec {
	fuel := 3
	if d != nil && d.Opts["fuel"] != "" {
		fmt.Sscan(d.Opts["fuel"], &fuel)
	}
	inc.ms = 1500
	if d != nil && d.Opts["feasible"] != "" { // milliseconds: whether a path is possible matters for the number of paths only
		fmt.Sscan(d.Opts["feasible"], &inc.ms)
	}
	specs := p.specs
	if d != nil && d.Opts["unroll"] != "" {
		specs = map[string][]*LoopSpec{}
		for k, v := range p.specs {
			if k != d.Opts["unroll"] {
				specs[k] = v
			}
		}
	}
	return &Exec{w: p.w, heapSorts: map[string]*Sort{}, iptrs: map[*Term]*Place{}, driver: d, solver: inc,
		assumed: map[string]bool{}, inlined: map[string]bool{}, recFuel: fuel, loopSpecs: specs, modular: p.modular,
		ghosts: p.ghosts, fnLoops: map[*ssaFunction]*loopInfo{}, fnPdom: map[*ssaFunction]map[*ssaBlock]*ssaBlock{},
		globalsIn: map[string]*Term{}, oblCnt: map[string]int{}, usedSpecs: map[string]bool{}, recFns: p.recFns, recGround: p.recGround,
		recDone: map[*Term]int{}, usedContracts: map[string]bool{}, usedOpaque: map[string]bool{}, copyOf: map[*Term][3]*Term{}, seqs: map[*Term]*seqInfo{}}
}

func (p *Program) runDriver(d *Driver, inc *Inc) (r *driverRun) {
	x := p.newExec(d, inc)
	r = &driverRun{d: d, x: x}
	t0 := time.Now()
	defer func() {
		r.secs = time.Since(t0).Seconds()
		r.obls = x.obls
		r.cov = x.covers
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.err = u.msg
			} else {
				r.err = fmt.Sprint("engine error: ", e)
				if debugFlag {
					debug.PrintStack()
				}
			}
		}
	}()
	var args []Value
	for _, prm := range d.Fn.Params {
		v := p.w.input("in|"+d.Fn.Name()+"|"+prm.Name(), prm.Type())
		x.inputs = append(x.inputs, v)
		args = append(args, v)
	}
	outs := x.callFn(newState(), d.Fn, args, nil, nil, d.Fn.Pos())
	r.paths = len(outs)
	for _, o := range outs {
		if d.Target != "" {
			x.oblige(o.st, d.Name+"/writes nothing else", "frame", x.unchanged(o.st, x.frameLocs...), x.posOf(d.Fn.Pos()), d.Name)
		}
		x.covers = append(x.covers, &Obl{Name: d.Name + "/reachable-end", Kind: "end", Hyps: o.st.pcTerms(), Goal: False})
	}
	return r
}

var debugFlag = os.Getenv("GOVC_DEBUG") != ""

func main() {
	prop := flag.String("prop", "", "property to check")
	one := flag.String("driver", "", "only this contract")
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contracts")
	out := flag.String("out", "", "result file (JSON)")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "directory for the solver scripts")
	list := flag.Bool("list", false, "list contracts")
	verbose := flag.Bool("v", false, "print every obligation")
	budget := flag.Float64("budget", 600, "seconds")
	child := flag.Bool("child", false, "internal: take contract names from standard input")
	jobs := flag.Int("jobs", runtime.NumCPU(), "parallel processes")
	flag.Parse()

	p, err := LoadProgram(*repo, *contracts, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: load:", err)
		res := &Result{Property: *prop, By: map[string]int{}, Obligations: 1, Failed: []Failure{{Name: "load", Kind: "load", Note: err.Error()}}}
		writeResult(*out, res)
		os.Exit(3)
	}
	var sel []*Driver
	for _, d := range p.drivers {
		if *one != "" {
			if d.Name != *one && !strings.HasSuffix(d.Name, "."+*one) {
				continue
			}
		} else if *prop != "" {
			ok := false
			for _, q := range d.Props {
				ok = ok || q == *prop
			}
			if !ok {
				continue
			}
			if d.Tier == "thorough" && *tier != "thorough" {
				continue
			}
		}
		sel = append(sel, d)
	}
	if *list {
		for _, d := range p.drivers {
			fmt.Println(d.Name, d.Props, d.Target)
		}
		return
	}
	// a modular contract used by a selected driver must itself be proved
	have := map[string]bool{}
	for _, d := range sel {
		have[d.Name] = true
	}
	res := &Result{Property: *prop, By: map[string]int{}, LoadSecs: p.loadS}
	for _, s := range p.stale {
		mine := *prop == ""
		for _, q := range s.Props {
			mine = mine || q == *prop
		}
		if len(s.Props) == 0 || mine {
			if strings.HasPrefix(s.Name, "import ") {
				continue
			}
			if len(s.Props) == 0 && *prop != "" {
				// a helper of some contract: the contracts that use it are reported as well
				continue
			}
			res.Obligations++
			res.Failed = append(res.Failed, Failure{Name: s.Name + "/binds", Kind: "contract", Result: "stale", Note: "the contract no longer type-checks against the code: " + s.Err})
		}
	}
	if !*child && *dump == "" && *jobs > 1 && len(sel) > 1 {
		runParallel(p, sel, res, *jobs, *budget, []string{"-repo", *repo, "-contracts", *contracts, "-prop", *prop, "-tier", *tier}, *verbose)
		finish(res, *prop, *out)
	}
	var stdin *bufio.Scanner
	if *child {
		sel = nil
		res = &Result{Property: *prop, By: map[string]int{}, LoadSecs: p.loadS}
		stdin = bufio.NewScanner(os.Stdin)
	}
	inc := NewInc(p.w)
	defer inc.Close()
	deadline := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	t1, t2 := 3.0, 45.0
	if *tier == "thorough" {
		t1, t2 = 10, 200
	}
	assumed := map[string]bool{}
	funcs := map[string]bool{}
	specs := map[string]bool{}
	mods := map[string]bool{}
	workers := runtime.NumCPU()
	if *child {
		workers = 2
	}
	pool := newPool(p.w, workers, t1, t2, *dump)
	var runs []*driverRun
	for i := 0; ; i++ {
		if *child {
			fmt.Println("READY")
			if !stdin.Scan() || stdin.Text() == "" {
				break
			}
			for _, d := range p.drivers {
				if d.Name == stdin.Text() {
					sel = append(sel, d)
				}
			}
		}
		if i >= len(sel) {
			break
		}
		d := sel[i]
		if time.Now().After(deadline) {
			res.Obligations++
			res.Failed = append(res.Failed, Failure{Name: d.Name + "/budget", Kind: "budget", Result: "unknown", Note: "time budget exceeded"})
			continue
		}
		r := p.runDriver(d, inc)
		runs = append(runs, r)
		if *verbose {
			fmt.Printf("# %s: %d obligations, %d paths, %.2fs exec, %d steps %s\n", d.Name, len(r.obls), r.paths, r.secs, r.x.steps, r.err)
		}
		res.ExecSecs += r.secs
		res.Contracts = append(res.Contracts, d.Name)
		for k := range r.x.assumed {
			assumed[k] = true
		}
		for k := range r.x.inlined {
			funcs[k] = true
		}
		for k := range r.x.usedSpecs {
			specs[k] = true
		}
		for k := range r.x.usedContracts {
			mods[k] = true
			if *child {
				fmt.Println("USED " + k)
			} else if !have[k] {
				for _, d2 := range p.drivers {
					if d2.Name == k {
						have[k] = true
						sel = append(sel, d2)
					}
				}
			}
		}
		if r.err != "" {
			res.Obligations++
			res.Failed = append(res.Failed, Failure{Name: d.Name + "/translate", Kind: "translate", Fn: d.Name, Result: "unsupported", Note: r.err})
		}
		if r.err == "" && r.paths == 0 {
			res.Obligations++
			res.Failed = append(res.Failed, Failure{Name: d.Name + "/terminates-normally", Kind: "vacuity", Result: "unknown", Note: "no execution path reaches the end of the contract"})
		}
		pool.submit(r.x, r.obls)
		pool.submitCover(r.x, r.cov)
	}
	pool.wait()
	for _, r := range runs {
		for _, o := range r.obls {
			res.Obligations++
			res.SolverSecs += o.Secs
			if *verbose || o.Result != "unsat" && *out == "" {
				fmt.Printf("%-8s %-10s %6.2fs %s  %s  [%s]\n", o.Result, o.By, o.Secs, o.Name, o.Pos, o.Kind)
			}
			if o.Result == "unsat" {
				res.Discharged++
				res.By[o.By]++
				continue
			}
			res.Failed = append(res.Failed, Failure{Name: o.Name, Kind: o.Kind, Fn: o.Fn, Pos: o.Pos, Result: o.Result, Model: clip(o.Model, 6000), Trace: o.Trace, Script: clip(o.Note, 20000)})
		}
		ends, dead := 0, 0
		for _, o := range r.cov {
			if o.Kind == "end" {
				ends++
				if o.Result == "unsat" {
					dead++
				}
				continue
			}
			res.Covers++
		}
		for _, g := range p.unreachable(r) {
			res.Obligations++
			res.Failed = append(res.Failed, Failure{Name: g.Name, Kind: "vacuity", Pos: g.Pos, Result: "unsat", Note: "the hypotheses are contradictory on every path to this point"})
		}
		if ends > 0 && ends == dead {
			res.Obligations++
			res.Failed = append(res.Failed, Failure{Name: r.d.Name + "/vacuous", Kind: "vacuity", Result: "unsat", Note: "the hypotheses are contradictory on every path"})
		}
	}
	res.Assumptions = keysOf(assumed)
	res.Functions = keysOf(funcs)
	res.LoopSpecs = keysOf(specs)
	res.Modular = keysOf(mods)
	seen := map[string]bool{}
	for _, r := range runs {
		for _, o := range r.obls {
			if !seen[o.Name] {
				seen[o.Name] = true
				res.Names = append(res.Names, o.Name)
			}
		}
	}
	sort.Strings(res.Names)
	res.Feas, res.FeasSecs = inc.N, inc.Secs
	if *child {
		writeResult(*out, res)
		return
	}
	finish(res, *prop, *out)
}

func finish(res *Result, prop, out string) {
	writeResult(out, res)
	fmt.Printf("govc %s: contracts=%d functions=%d obligations=%d discharged=%d failed=%d load=%.1fs exec=%.1fs feas=%d/%.1fs solver=%.1fs by=%v\n",
		prop, len(res.Contracts), len(res.Functions), res.Obligations, res.Discharged, len(res.Failed), res.LoadSecs, res.ExecSecs, res.Feas, res.FeasSecs, res.SolverSecs, res.By)
	for _, f := range res.Failed {
		fmt.Printf("FAILED %s [%s] %s %s %s\n", f.Name, f.Kind, f.Result, f.Pos, f.Note)
	}
	if len(res.Failed) > 0 || res.Obligations == 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeResult(path string, r *Result) {
	if path == "" {
		return
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, b, 0644)
}

// pool discharges obligations while symbolic execution goes on.
type pool struct {
	w      *World
	jobs   chan func()
	wg     sync.WaitGroup
	pend   sync.WaitGroup
	cache  map[string]*Obl
	dups   [][2]*Obl
	t1, t2 float64
	dump   string
	n      int
}

func newPool(w *World, workers int, t1, t2 float64, dump string) *pool {
	p := &pool{w: w, jobs: make(chan func(), 4096), cache: map[string]*Obl{}, t1: t1, t2: t2, dump: dump}
	if dump != "" {
		os.MkdirAll(dump, 0755)
	}
	for i := 0; i < workers; i++ {
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			for j := range p.jobs {
				j()
			}
		}()
	}
	return p
}

func (p *pool) submit(x *Exec, obls []*Obl) {
	for _, o := range obls {
		if o.Goal.IsTrue() || anyFalse(o.Hyps) {
			o.Result, o.By = "unsat", "simplifier"
			continue
		}
		fs := append(append([]*Term{}, o.Hyps...), Not(o.Goal))
		txt, quant := p.w.render(fs, x.inputs, false)
		if c, ok := p.cache[txt]; ok {
			p.dups = append(p.dups, [2]*Obl{o, c})
			continue
		}
		p.cache[txt] = o
		full := txt + "(check-sat)\n(get-model)\n"
		alt := ""
		if quant {
			alt = p.w.renderAlt(fs, x.inputs, txt)
		}
		p.n++
		if p.dump != "" {
			os.WriteFile(fmt.Sprintf("%s/%04d_%s.smt2", p.dump, p.n, sanitize(o.Name)), []byte(full), 0644)
		}
		o := o
		p.jobs <- func() {
			o.Result, o.By, o.Model, o.Secs = p.w.discharge(full, alt, quant, p.t1, p.t2)
			if o.Result != "unsat" {
				o.Note = full
			}
		}
	}
}

func (p *pool) submitCover(x *Exec, obls []*Obl) {
	for _, o := range obls {
		if anyFalse(o.Hyps) {
			o.Result = "unsat"
			continue
		}
		txt, quant := p.w.render(o.Hyps, nil, false)
		full := txt + "(check-sat)\n"
		o := o
		p.jobs <- func() { o.Result, o.By, o.Model, o.Secs = p.w.discharge(full, "", quant, 3, 0) }
	}
}

// unreachable lists the postconditions, invariants and cover points that hold only because
// the hypotheses are contradictory on every path to them.
func (p *Program) unreachable(r *driverRun) (dead []*Obl) {
	at := map[*Term]map[int]bool{} // last hypotheses of the points of the paths that are not contradictory
	live := func(h []*Term) {
		for i, t := range h {
			if at[t] == nil {
				at[t] = map[int]bool{}
			}
			at[t][i] = true
		}
	}
	isLive := func(h []*Term) bool { return len(h) == 0 || at[h[len(h)-1]][len(h)-1] }
	groups := map[string][]*Obl{}
	var names []string
	add := func(o *Obl, key string) {
		if groups[key] == nil {
			names = append(names, key)
		}
		groups[key] = append(groups[key], o)
	}
	for _, o := range r.cov {
		if o.Kind == "end" {
			if o.Result != "unsat" {
				live(o.Hyps)
			}
			continue
		}
		add(o, o.Name)
	}
	for _, o := range r.obls {
		if o.Kind == "ensures" || o.Kind == "invariant" {
			add(o, o.Name+" "+o.Pos)
		}
	}
	tried := map[string]*Obl{}
	for len(names) > 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		var rest []string
		for _, n := range names {
			g := groups[n]
			mu.Lock()
			ok := tried[n] != nil && isLive(tried[n].Hyps)
			for _, o := range g {
				ok = ok || isLive(o.Hyps)
			}
			mu.Unlock()
			if ok {
				continue
			}
			var next []*Obl
			for i, o := range g {
				if !anyFalse(o.Hyps) {
					next = g[i:]
					break
				}
			}
			if next == nil {
				dead = append(dead, g[0])
				continue
			}
			tried[n] = next[0]
			groups[n] = append(next[1:len(next):len(next)], &Obl{Name: g[0].Name, Pos: g[0].Pos, Hyps: []*Term{False}})
			rest = append(rest, n)
			txt, quant := p.w.render(next[0].Hyps, nil, false)
			h := next[0].Hyps
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				res, _, _, _ := p.w.discharge(txt+"(check-sat)\n", "", quant, 2, 0)
				if res != "unsat" {
					mu.Lock()
					live(h)
					mu.Unlock()
				}
			}()
			if len(rest)%4 == 0 {
				wg.Wait() // points on one path share its answer
			}
		}
		wg.Wait()
		names = rest
	}
	return dead
}

func anyFalse(h []*Term) bool {
	for _, t := range h {
		if t.IsFalse() {
			return true
		}
	}
	return false
}

func (p *pool) wait() {
	close(p.jobs)
	p.wg.Wait()
	for _, d := range p.dups {
		d[0].Result, d[0].By, d[0].Model, d[0].Note = d[1].Result, d[1].By, d[1].Model, d[1].Note
	}
}

type (
	ssaFunction = ssa.Function
	ssaBlock    = ssa.BasicBlock
)
