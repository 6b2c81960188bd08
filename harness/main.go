// Command harness replays the properties against the real code with concrete inputs.
//
// It has two uses.  When the verifier rejects an obligation it looks for an input that
// shows the violation on the real code; and for the parts of a property that are outside
// the verifier's reach it is the bounded check that stands in, labelled as such.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type Failure struct {
	Key    string // stable identification of the failing input
	Input  string
	Detail string
}

type Report struct {
	Property string
	Seed     int64
	Tier     string
	Evals    int
	Distinct int
	Rule     string
	Samples  []string
	Failures []Failure
	Wall     float64
}

// H is the context of one property run.
type H struct {
	rnd      *rand.Rand
	thorough bool
	rep      *Report
	seen     map[string]bool
	cur      string
	curKey   string
	started  time.Time
	mu       sync.Mutex
	strs     []string // hints from the verifier's counterexamples
	ints     []int64
	deadline time.Time
	perKey   map[string]int
}

func (h *H) expired() bool { return time.Now().After(h.deadline) }

// n scales an iteration count with the tier.
func (h *H) n(quick int) int {
	if h.thorough {
		return quick * 15
	}
	return quick
}

// Case runs one evaluation; a panic or a hang is a failure of the property.
func (h *H) Case(key, input string, f func()) {
	h.mu.Lock()
	h.cur, h.curKey, h.started = input, key, time.Now()
	h.mu.Unlock()
	h.rep.Evals++
	if len(h.seen) < 200000 && !h.seen[input] {
		h.seen[input] = true
		h.rep.Distinct++
		if len(h.rep.Samples) < 6 && (h.rep.Distinct&(h.rep.Distinct-1)) == 0 {
			h.rep.Samples = append(h.rep.Samples, clip(input, 300))
		}
	}
	defer func() {
		h.mu.Lock()
		h.cur = ""
		h.mu.Unlock()
		if r := recover(); r != nil {
			h.Fail(key+"/panic", input, fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000)))
		}
	}()
	f()
}

func (h *H) Fail(key, input, detail string) {
	h.perKey[key]++
	if h.perKey[key] > 3 {
		return
	}
	h.rep.Failures = append(h.rep.Failures, Failure{key, clip(input, 4000), clip(detail, 4000)})
}

func (h *H) Checkf(ok bool, key, input, format string, args ...any) bool {
	if !ok {
		h.Fail(key, input, fmt.Sprintf(format, args...))
	}
	return ok
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var props = map[string]func(h *H){}
var rules = map[string]string{}

func register(id, rule string, f func(h *H)) {
	props[id] = f
	rules[id] = rule
}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	hints := flag.String("hints", "", "")
	budget := flag.Float64("budget", 120, "seconds")
	flag.Parse()
	if *prop == "list" {
		var ks []string
		for k := range props {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		return
	}
	f := props[*prop]
	if f == nil {
		fmt.Println("harness: no concrete check for", *prop)
		os.Exit(2)
	}
	rep := &Report{Property: *prop, Seed: *seed, Tier: *tier, Rule: rules[*prop]}
	h := &H{rnd: rand.New(rand.NewSource(*seed)), thorough: *tier == "thorough", rep: rep, seen: map[string]bool{}, perKey: map[string]int{},
		deadline: time.Now().Add(time.Duration(*budget * float64(time.Second)))}
	if *hints != "" {
		if b, err := os.ReadFile(*hints); err == nil {
			var x struct {
				Strings []string
				Ints    []int64
			}
			if json.Unmarshal(b, &x) == nil {
				h.strs, h.ints = x.Strings, x.Ints
			}
		}
	}
	t0 := time.Now()
	finish := func() {
		rep.Wall = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		} else {
			os.Stdout.Write(b)
			fmt.Println()
		}
	}
	// watchdog: a single evaluation that runs for more than 20 s does not terminate
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			h.mu.Lock()
			hang := h.cur != "" && time.Since(h.started) > 20*time.Second
			in, key := h.cur, h.curKey
			h.mu.Unlock()
			if hang {
				h.Fail(key+"/hang", in, "the call did not return within 20 s")
				finish()
				os.Exit(1)
			}
		}
	}()
	h.Case("harness", "start", func() { f(h) })
	finish()
	if len(rep.Failures) > 0 {
		os.Exit(1)
	}
}
