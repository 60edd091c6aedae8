// Package main is the model checker. It lives in /verif/mc and is compiled
// into the repository's module through an overlay, so it drives the exported
// API of the code in /repo's working tree directly.
//
// A family is a bounded space of executions: a function that makes finitely
// many choices (operations, arguments, documents, map orders, random answers,
// schedules) through Ctx.Choose. The explorer runs the function once for
// every possible sequence of choices: a stateless exhaustive search. Every
// execution runs the real code and compares it with a reference model.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/CAU-CPSS/logument/internal/zzrt"
)

type failure struct {
	Property string   `json:"property"`
	Family   string   `json:"family"`
	Depth    int      `json:"depth"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Log      []string `json:"log"`
	Stack    string   `json:"stack,omitempty"`
	Slow     bool     `json:"slow,omitempty"` // it does not end
}

type skipped struct{} // the execution belongs to another shard
type pruned struct{}  // the execution is outside the family's domain
type failed struct{}

// Ctx is one execution.
type Ctx struct {
	prefix []int
	taken  []int
	arity  []int
	log    []string
	fam    *Family
	fail   *failure

	shard, shards int
	owned         bool
	prod, mixed   int

	Depth int // the depth bound of this round

	orderMode  int // 0 ascending, 1 descending, 2 rotated
	orderDev   int // remaining deviations from the base order
	orderMax   int // largest map explored by deviations
	randChoice func(n int) int

	w *worker
}

// Choose makes a choice among n alternatives.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic("harness: empty choice")
	}
	if n == 1 {
		return 0
	}
	i := len(c.taken)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("harness: divergence while replaying: choice %d is %d of %d", i, v, n))
		}
	}
	c.taken = append(c.taken, v)
	c.arity = append(c.arity, n)
	if !c.owned {
		c.mixed = c.mixed*n + v
		c.prod *= n
		if c.prod >= c.shards*32 {
			c.own()
		}
	}
	return v
}

func (c *Ctx) own() {
	if c.owned {
		return
	}
	c.owned = true
	if c.shards > 1 && c.mixed%c.shards != c.shard {
		panic(skipped{})
	}
}

func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Log records a step of the execution for the replay file.
func (c *Ctx) Log(format string, args ...any) {
	if c.w.verbose || c.w.logging {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Step counts a transition: one operation of the real code.
func (c *Ctx) Step() { c.w.transitions++ }

// State counts a distinct state.
func (c *Ctx) State(s string) {
	if len(c.w.states) >= c.w.maxStates {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.w.states[h.Sum64()] = struct{}{}
}

// Outcome counts distinct observed outcomes.
func (c *Ctx) Prune() { panic(pruned{}) }

// Failf reports that the property does not hold in this execution.
func (c *Ctx) Failf(format string, args ...any) {
	c.fail = &failure{Message: fmt.Sprintf(format, args...)}
	panic(failed{})
}

// Family is a bounded space of executions.
type Family struct {
	Name  string
	Body  func(c *Ctx)
	Limit int64 // step limit per execution
	// Depth: the body is explored with c.Depth 1, 2, … up to this bound; a
	// family without one is explored once.
	Depth  int
	Extra  int  // depths beyond it which are tried with the time left
	Weight int  // share of the time
	Desc   bool // maps are visited in descending order instead of ascending
	// Orders: explore ascending and descending map order for every execution,
	// and OrderDev deviations from it on maps of up to OrderMax keys.
	Orders   int
	OrderDev int
	OrderMax int
}

type Prop struct {
	ID          string
	Families    func(tier string) []Family
	Assumptions []string
	Setup       func(w *worker)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type worker struct {
	prop        *Prop
	tier        string
	shard       int
	shards      int
	deadline    time.Time
	stopFile    string
	stopCheck   time.Time
	stopped     bool
	verbose     bool
	logging     bool
	known       map[string]bool
	maxStates   int
	states      map[uint64]struct{}
	transitions int64
	executions  int64
	perFamily   map[string]int64
	samples     []string
	capped      map[string]string
	completed   map[string]int
	depth       int
	failures    []*failure
	knownHit    []*failure
	scratch     string
	patience    atomic.Int64 // seconds of CPU time one execution may take
	current     atomic.Pointer[Ctx]
	slow        atomic.Bool
	away        atomic.Bool // waiting for a child process
}

// child runs a process which has to end within so many seconds.
func (c *Ctx) child(cmd *exec.Cmd, seconds int) error {
	c.w.away.Store(true)
	defer c.w.away.Store(false)
	late := false
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(time.Duration(seconds)*time.Second, func() {
		late = true
		cmd.Process.Kill()
	})
	err := cmd.Wait()
	if !t.Stop() && late {
		c.Failf("it has not ended after %d seconds: %q", seconds, cmd.Args[1:])
	}
	return err
}

// watch ends an execution which takes more CPU time than any should, or which
// waits for something that never happens.
func (w *worker) watch() {
	cpu := func() time.Duration {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	var at *Ctx
	var since time.Duration
	var ticks, late int
	for {
		time.Sleep(500 * time.Millisecond)
		c := w.current.Load()
		if c == nil || c != at || w.away.Load() {
			at, since, ticks, late = c, cpu(), 0, 0
			continue
		}
		ticks++
		used := cpu() - since
		if used > time.Duration(w.patience.Load())*time.Second {
			if late == 0 {
				w.slow.Store(true)
				zzrt.Limit = -1 // the next step is the last one
			}
			late++
		}
		if late > 30 || ticks > 120 && used < 2*time.Second {
			b, _ := json.Marshal(&failure{Property: w.prop.ID, Family: c.fam.Name, Depth: w.depth, Choices: append([]int{}, c.taken...), Slow: true})
			fmt.Fprintf(os.Stderr, "STUCK %s\n", b)
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(2)
		}
	}
}

// run executes one choice sequence. ok is false when it belongs elsewhere.
func (w *worker) run(f *Family, prefix []int) (c *Ctx, ok bool) {
	c = &Ctx{prefix: prefix, fam: f, w: w, Depth: w.depth, shard: w.shard, shards: w.shards, prod: 1, orderMax: f.OrderMax}
	if c.orderMax == 0 {
		c.orderMax = 3
	}
	zzrt.Steps = 0
	memoOn = false
	zzrt.Limit = f.Limit
	if f.Limit == 0 {
		zzrt.Limit = 3000000
	}
	ok = true
	w.slow.Store(false)
	w.current.Store(c)
	defer func() {
		w.current.Store(nil)
		zzrt.Hook, zzrt.SpinHook, zzrt.Order = nil, nil, nil
		zzrt.RandFloat, zzrt.RandIntn, zzrt.Clock = nil, nil, nil
		zzrt.NoPreempt, zzrt.Started = 0, false
		zzrt.Limit = 1 << 60
		if r := recover(); r != nil {
			switch r := r.(type) {
			case skipped:
				ok = false
			case pruned:
				if !c.owned && w.shards > 1 && c.mixed%w.shards != w.shard {
					ok = false
				}
			case failed:
			case zzrt.StepLimit:
				c.fail = &failure{Message: fmt.Sprintf("the operation did not terminate within %d steps", zzrt.Steps), Slow: w.slow.Load()}
			default:
				c.fail = &failure{Message: fmt.Sprintf("panic: %v", r), Stack: trimStack(string(debug.Stack()))}
			}
		}
		if c.fail != nil {
			c.fail.Property = w.prop.ID
			c.fail.Family = f.Name
			c.fail.Choices = append([]int{}, c.taken...)
			c.fail.Depth = w.depth
			c.fail.Log = c.log
			c.fail.Key = f.Name + ":" + strings.Join(c.log, "|")
		}
	}()
	if f.Orders > 1 {
		c.orderMode = c.Choose(f.Orders)
	}
	if f.Desc {
		c.orderMode = 1
	}
	c.orderDev = f.OrderDev
	zzrt.Order = c.order
	if journalFile != nil {
		b, _ := json.Marshal(map[string]any{"family": f.Name, "depth": w.depth, "choices": prefix})
		journalFile.Truncate(0)
		journalFile.WriteAt(append([]byte("\n"), b...), 0)
	}
	f.Body(c)
	c.own() // a short execution: owned by one shard only
	return c, true
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "/repo/") || (i+1 < len(lines) && strings.Contains(lines[i+1], "/repo/")) {
			out = append(out, l)
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

// order decides the order in which n sorted map keys are visited.
func (c *Ctx) order(n int) []int {
	perm := make([]int, n)
	for i := range perm {
		switch c.orderMode {
		case 0:
			perm[i] = i
		case 1:
			perm[i] = n - 1 - i
		default:
			perm[i] = (i + n/2) % n
		}
	}
	if c.orderDev > 0 && n <= c.orderMax {
		total := 1
		for i := 2; i <= n; i++ {
			total *= i
		}
		if k := c.Choose(total); k > 0 {
			c.orderDev--
			return nthPerm(perm, k)
		}
	}
	return perm
}

// nthPerm returns the k-th permutation of p (0 is p itself).
func nthPerm(p []int, k int) []int {
	rest := append([]int{}, p...)
	out := make([]int, 0, len(p))
	f := 1
	for i := 2; i < len(p); i++ {
		f *= i
	}
	for n := len(p) - 1; n >= 0; n-- {
		i := 0
		if f > 0 {
			i = k / f
			k %= f
		}
		out = append(out, rest[i])
		rest = append(rest[:i], rest[i+1:]...)
		if n > 0 {
			f /= max(n, 1)
		}
	}
	return out
}

// explore enumerates every execution of the family in this shard. It reports
// whether it got through.
func (w *worker) explore(f *Family) bool {
	n0 := w.perFamily[f.Name]
	var prefix []int
	for {
		now := time.Now()
		if w.stopFile != "" && now.After(w.stopCheck) {
			w.stopCheck = now.Add(250 * time.Millisecond)
			if _, err := os.Stat(w.stopFile); err == nil { // there is a counterexample already
				w.stopped = true
			}
		}
		if w.stopped || now.After(w.deadline) {
			w.capped[f.Name] = fmt.Sprintf("depth %d: stopped at the time limit", w.depth)
			return false
		}
		c, ok := w.run(f, prefix)
		if c.fail != nil && !(!c.owned && w.shards > 1 && c.mixed%w.shards != w.shard) {
			// once more with the log on
			w.logging = true
			if c.fail.Slow {
				w.patience.Store(10)
			}
			again, _ := w.run(f, c.taken)
			w.logging = false
			w.patience.Store(30)
			fl := c.fail
			if again.fail != nil {
				fl = again.fail
			}
			if w.known[fl.Key] {
				w.knownHit = append(w.knownHit, fl)
			} else {
				w.failures = append(w.failures, fl)
				return false
			}
		}
		if ok {
			w.executions++
			w.perFamily[f.Name]++
			if n := w.perFamily[f.Name]; n == n0+1 || n == n0+1000 {
				w.logging = true
				again, _ := w.run(f, c.taken)
				w.logging = false
				s := fmt.Sprintf("%s %v", f.Name, c.taken)
				if len(again.log) > 0 {
					s += ": " + strings.Join(again.log, "; ")
				}
				if len(s) > 600 {
					s = s[:600] + "…"
				}
				w.samples = append(w.samples, s)
			}
		}
		// next choice sequence
		i := len(c.taken) - 1
		for i >= 0 && c.taken[i]+1 >= c.arity[i] {
			i--
		}
		if i < 0 {
			return true
		}
		prefix = append(append([]int{}, c.taken[:i]...), c.taken[i]+1)
	}
}

type result struct {
	Executions  int64             `json:"executions"`
	Transitions int64             `json:"transitions"`
	PerFamily   map[string]int64  `json:"per_family"`
	Samples     []string          `json:"samples"`
	Capped      map[string]string `json:"capped"`
	Completed   map[string]int    `json:"completed"`
	Failures    []*failure        `json:"failures"`
	KnownHit    []*failure        `json:"known_hit"`
	StatesFull  bool              `json:"states_full"`
}

func (w *worker) runAll(only string) {
	if w.prop.Setup != nil {
		w.prop.Setup(w)
	}
	fams := w.prop.Families(w.tier)
	end := w.deadline
	// Iterate the bound: every family at depth 1, then at depth 2, …
	type item struct{ fam, depth int }
	var items []item
	for d := 1; d <= 64; d++ {
		for i := range fams {
			if only != "" && fams[i].Name != only {
				continue
			}
			if d == 1 || d <= fams[i].Depth {
				items = append(items, item{i, d})
			}
		}
	}
	bounded := len(items)
	for d := 1; d <= 64; d++ {
		for i := range fams {
			if f := &fams[i]; (only == "" || f.Name == only) && d > f.Depth && d <= f.Depth+f.Extra && d > 1 {
				items = append(items, item{i, d})
			}
		}
	}
	// A second pass takes up what did not get through with the time left.
	for pass := 0; pass < 3; pass++ {
		now := items[:bounded]
		if pass == 2 {
			now = items[bounded:]
		}
		total := 2
		for _, it := range now {
			total += fams[it.fam].weight()
		}
		for _, it := range now {
			f := &fams[it.fam]
			share := f.weight()
			total -= share
			if w.completed[f.Name] != it.depth-1 {
				continue // done, or stopped at a smaller depth
			}
			if pass == 1 {
				total = 2
			}
			now := time.Now()
			left := end.Sub(now)
			w.deadline = now.Add(min(left, left*3*time.Duration(share)/time.Duration(total+share)))
			w.depth = it.depth
			if w.explore(f) {
				w.completed[f.Name] = it.depth
				delete(w.capped, f.Name)
			} else if pass == 2 { // beyond the stated bound
				delete(w.capped, f.Name)
			}
			if len(w.failures) > 0 || w.stopped {
				return
			}
		}
	}
}

func (f *Family) weight() int { return max(1, f.Weight) }

func writeJSON(name string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(name, append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}
