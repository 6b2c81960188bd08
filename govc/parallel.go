package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// runParallel distributes the contracts over processes (the term store is global, so a
// process executes one contract at a time).
func runParallel(p *Program, sel []*Driver, res *Result, jobs int, budget float64, args []string, verbose bool) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	if jobs > len(sel) {
		jobs = len(sel)
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	seen := map[string]bool{}
	var queue []string
	for _, d := range sel {
		seen[d.Name] = true
		queue = append(queue, d.Name)
	}
	busy := 0
	next := func(was bool) string {
		mu.Lock()
		defer mu.Unlock()
		if was {
			busy--
			cond.Broadcast()
		}
		for len(queue) == 0 && busy > 0 {
			cond.Wait()
		}
		if len(queue) == 0 {
			return ""
		}
		n := queue[0]
		queue = queue[1:]
		busy++
		return n
	}
	var wg sync.WaitGroup
	parts := make([]*Result, jobs)
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprint(i, ".json"))
			cmd := exec.Command(self, append(append([]string{}, args...), "-child", "-out", out, "-budget", fmt.Sprint(budget))...)
			if verbose {
				cmd.Args = append(cmd.Args, "-v")
			}
			in, _ := cmd.StdinPipe()
			so, _ := cmd.StdoutPipe()
			cmd.Stderr = os.Stderr
			cur := ""
			if err := cmd.Start(); err == nil {
				sc := bufio.NewScanner(so)
				sc.Buffer(make([]byte, 1<<20), 1<<26)
				for sc.Scan() {
					l := sc.Text()
					switch {
					case l == "READY":
						n := next(cur != "")
						cur = n
						io.WriteString(in, n+"\n")
					case strings.HasPrefix(l, "USED "):
						mu.Lock()
						if n := l[5:]; !seen[n] {
							seen[n] = true
							queue = append(queue, n)
							cond.Broadcast()
						}
						mu.Unlock()
					default:
						if verbose {
							mu.Lock()
							fmt.Println(l)
							mu.Unlock()
						}
					}
				}
				cmd.Wait()
			}
			if cur != "" {
				next(true) // the process died: give the slot back
			}
			r := &Result{}
			b, err := os.ReadFile(out)
			if err != nil || json.Unmarshal(b, r) != nil || cur != "" {
				r.Obligations++
				r.Failed = append(r.Failed, Failure{Name: cur + "/engine", Kind: "engine", Result: "crashed", Note: "the verifier process ended early"})
			}
			parts[i] = r
		}()
	}
	wg.Wait()
	set := func(dst *[]string, add []string) {
		m := map[string]bool{}
		for _, s := range append(*dst, add...) {
			m[s] = true
		}
		*dst = keysOf(m)
	}
	for _, r := range parts {
		set(&res.Contracts, r.Contracts)
		set(&res.Functions, r.Functions)
		set(&res.Assumptions, r.Assumptions)
		set(&res.LoopSpecs, r.LoopSpecs)
		set(&res.Modular, r.Modular)
		set(&res.Names, r.Names)
		res.Obligations += r.Obligations
		res.Discharged += r.Discharged
		res.SolverSecs += r.SolverSecs
		res.ExecSecs += r.ExecSecs
		res.Feas += r.Feas
		res.FeasSecs += r.FeasSecs
		res.Covers += r.Covers
		for k, v := range r.By {
			res.By[k] += v
		}
		res.Failed = append(res.Failed, r.Failed...)
	}
	sort.Slice(res.Failed, func(i, j int) bool { return res.Failed[i].Name < res.Failed[j].Name })
}
