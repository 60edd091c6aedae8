package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Exit codes: 0 held, 1 violation, 3 error of the check.
func main() {
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "work":
		work(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "free":
		free(os.Args[2:])
	default:
		if f := commands[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		os.Exit(3)
	}
}

// commands are further commands, for parts of an execution which need a
// process of their own.
var commands = map[string]func(args []string){}

func work(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	budget := fs.Float64("budget", 60, "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "")
	only := fs.String("family", "", "")
	journal := fs.String("journal", "", "")
	stop := fs.String("stop", "", "file whose presence ends the work")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", *prop)
		os.Exit(3)
	}
	scratch, err := os.MkdirTemp("", "verif-work-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	os.Chdir(scratch)
	w := &worker{prop: p, tier: *tier, shard: *shard, shards: *shards, states: map[uint64]struct{}{}, maxStates: 3000000,
		capped: map[string]string{}, completed: map[string]int{}, perFamily: map[string]int64{}, known: readKnown(*known, *prop), scratch: scratch, stopFile: *stop,
		deadline: time.Now().Add(time.Duration(*budget * float64(time.Second)))}
	if *journal != "" {
		journalFile, _ = os.Create(*journal)
	}
	if p := os.Getenv("VERIF_PROFILE"); p != "" && *shard == 0 {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	w.patience.Store(30)
	// exhausting memory is a crash, not the end of the sandbox
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 9 << 30, Max: 9 << 30})
	go w.watch()
	w.runAll(*only)
	os.Chdir("/")
	os.RemoveAll(scratch)
	f, err := os.Create(*out + ".states")
	if err == nil {
		bw := bufio.NewWriter(f)
		for h := range w.states {
			binary.Write(bw, binary.LittleEndian, h)
		}
		bw.Flush()
		f.Close()
	}
	writeJSON(*out, &result{w.executions, w.transitions, w.perFamily, w.samples, w.capped, w.completed, w.failures, w.knownHit,
		len(w.states) >= w.maxStates})
}

var journalFile *os.File

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	var fl failure
	if err == nil {
		err = json.Unmarshal(b, &fl)
	}
	if err != nil || props[fl.Property] == nil {
		fmt.Fprintln(os.Stderr, "harness: cannot replay:", err)
		return 3
	}
	scratch, err := os.MkdirTemp("", "verif-work-")
	if err != nil {
		return 3
	}
	defer os.RemoveAll(scratch)
	defer os.Chdir("/")
	os.Chdir(scratch)
	w := &worker{prop: props[fl.Property], tier: *tier, shards: 1, states: map[uint64]struct{}{}, maxStates: 1,
		capped: map[string]string{}, completed: map[string]int{}, perFamily: map[string]int64{}, scratch: scratch, verbose: true, depth: fl.Depth}
	w.patience.Store(20)
	go w.watch()
	if w.prop.Setup != nil {
		w.prop.Setup(w)
	}
	for _, t := range []string{*tier, "thorough", "quick"} {
		fams := w.prop.Families(t)
		for i := range fams {
			if fams[i].Name != fl.Family {
				continue
			}
			c, _ := w.run(&fams[i], fl.Choices)
			for _, l := range c.log {
				fmt.Println("  ", l)
			}
			if c.fail != nil {
				fmt.Println("FAILS:", c.fail.Message)
				if c.fail.Stack != "" {
					fmt.Println(c.fail.Stack)
				}
				return 1
			}
			fmt.Println("passes")
			return 0
		}
	}
	return 3
}

func readKnown(file, prop string) map[string]bool {
	known := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+prop+" key="); ok {
			if s, err := strconv.Unquote(rest); err == nil {
				known[s] = true
			}
		}
	}
	return known
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int("seed", 1, "")
	evidence := fs.String("evidence", "", "")
	known := fs.String("known", "", "")
	procs := fs.Int("procs", 8, "")
	budget := fs.Float64("budget", 60, "")
	mode := fs.String("mode", "instrumented", "")
	race := fs.String("race", "", "binary built with the race detector, for the free-running pass")
	uid := fs.Int("uid", 0, "run the workers as this user")
	only := fs.String("family", "", "")
	fs.Parse(args)
	start := time.Now()
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	scratch, err := os.MkdirTemp("/dev/shm", "verif-check-") // memory is faster, if there is any
	if err != nil {
		scratch, err = os.MkdirTemp("", "verif-check-")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Chmod(scratch, 0777)
	exe, _ := os.Executable()
	attr := &syscall.SysProcAttr{}
	if *uid > 0 && os.Getuid() == 0 {
		attr.Credential = &syscall.Credential{Uid: uint32(*uid), Gid: uint32(*uid), NoSetGroups: true}
		if c := exec.Command("/bin/true"); true {
			c.SysProcAttr = attr
			if c.Run() != nil {
				attr = &syscall.SysProcAttr{}
			}
		}
	}
	finish := func(code int) {
		os.RemoveAll(scratch)
		os.Exit(code)
	}

	type shardRun struct {
		res    *result
		crash  string
		killed bool
	}
	runShard := func(i int, extra ...string) shardRun {
		out := filepath.Join(scratch, fmt.Sprintf("shard%d.json", i))
		os.Remove(out)
		a := append([]string{"work", "-prop", *prop, "-tier", *tier, "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(*procs),
			"-budget", fmt.Sprint(*budget), "-out", out, "-known", *known, "-family", *only}, extra...)
		cmd := exec.Command(exe, a...)
		cmd.SysProcAttr = attr
		cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "HOME="+scratch)
		errFile := filepath.Join(scratch, fmt.Sprintf("shard%d.err", i))
		ef, _ := os.Create(errFile)
		cmd.Stderr = ef
		timer := time.AfterFunc(time.Duration((*budget*1.5+60)*float64(time.Second)), func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		err := cmd.Run()
		timer.Stop()
		ef.Close()
		var r result
		b, rerr := os.ReadFile(out)
		if err == nil && rerr == nil && json.Unmarshal(b, &r) == nil {
			return shardRun{res: &r}
		}
		msg, _ := os.ReadFile(errFile)
		s := shardRun{crash: fmt.Sprintf("%v\n%s", err, head(string(msg), 6000))}
		if ee, ok := err.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				s.killed = true
			}
			if ee.ExitCode() == 3 {
				fmt.Fprintln(os.Stderr, s.crash)
				finish(3)
			}
		}
		return s
	}

	replays := func(fl *failure, times int) (fails int) {
		rf := filepath.Join(scratch, "replay.json")
		writeJSON(rf, fl)
		os.Chmod(rf, 0644)
		for range times {
			cmd := exec.Command(exe, "replay", "-tier", *tier, rf)
			cmd.SysProcAttr = attr
			cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "HOME="+scratch)
			if err := cmd.Run(); err != nil && cmd.ProcessState != nil && cmd.ProcessState.ExitCode() != 3 {
				fails++
			}
		}
		return
	}

	// Once a shard has a counterexample, the others have a moment to find a
	// shorter one.
	stopFile := filepath.Join(scratch, "stop")
	runs := make([]shardRun, *procs)
	runAll := func(shards []int, extra ...string) {
		var wg sync.WaitGroup
		for _, i := range shards {
			wg.Add(1)
			go func() {
				defer wg.Done()
				runs[i] = runShard(i, extra...)
				if r := runs[i].res; r != nil && len(r.Failures) > 0 && len(extra) > 0 {
					time.Sleep(time.Duration(*budget * float64(time.Second) / 10))
					os.WriteFile(stopFile, nil, 0644)
				}
			}()
		}
		wg.Wait()
	}
	all := []int{}
	for i := range runs {
		all = append(all, i)
	}
	runAll(all, "-stop", stopFile)

	total := &result{PerFamily: map[string]int64{}, Capped: map[string]string{}, Completed: map[string]int{}}
	states := map[uint64]struct{}{}
	var violation *failure
	notes := []string{}
	merge := func(i int) {
		r := &runs[i]
		if r.res == nil {
			// The process died: find the execution that kills it
			if r.killed {
				total.Capped[fmt.Sprintf("shard %d", i)] = "was killed (memory or time) and is not covered"
				return
			}
			if k := strings.Index(r.crash, "STUCK {"); k >= 0 {
				line, trace, _ := strings.Cut(r.crash[k+6:], "\n")
				fl := &failure{}
				if json.Unmarshal([]byte(line), fl) == nil && violation == nil && replays(fl, 1) == 1 {
					fl.Message, fl.Stack = "an operation does not end", trimStack(trace)
					violation = fl
				}
				return
			}
			j := filepath.Join(scratch, fmt.Sprintf("journal%d", i))
			again := runShard(i, "-journal", j)
			if again.res == nil && !again.killed && strings.Contains(again.crash, "/repo/") {
				fl := &failure{Property: *prop, Message: "the process crashed: " + again.crash}
				if b, err := os.ReadFile(j); err == nil {
					if k := strings.LastIndex(strings.TrimRight(string(b), "\n"), "\n"); k >= 0 {
						b = b[k+1:]
					}
					var at struct {
						Family  string
						Depth   int
						Choices []int
					}
					if json.Unmarshal(b, &at) == nil {
						fl.Family, fl.Depth, fl.Choices = at.Family, at.Depth, at.Choices
					}
				}
				if violation == nil {
					violation = fl
				}
				return
			}
			if again.res == nil && !again.killed {
				fmt.Fprintln(os.Stderr, "the checker failed:", again.crash)
				finish(3)
			}
			if again.res == nil {
				total.Capped[fmt.Sprintf("shard %d", i)] = "was killed and is not covered"
				return
			}
			r.res = again.res
		}
		total.Executions += r.res.Executions
		total.Transitions += r.res.Transitions
		for k, v := range r.res.PerFamily {
			total.PerFamily[k] += v
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.res.Samples...)
		}
		for f, s := range r.res.Capped {
			total.Capped[f] = s
		}
		for f := range r.res.PerFamily {
			if _, ok := r.res.Completed[f]; !ok {
				r.res.Completed[f] = 0
			}
		}
		for f, d := range r.res.Completed {
			if old, ok := total.Completed[f]; !ok || d < old {
				total.Completed[f] = d
			}
		}
		total.KnownHit = append(total.KnownHit, r.res.KnownHit...)
		total.StatesFull = total.StatesFull || r.res.StatesFull
		if b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("shard%d.json.states", i))); err == nil {
			for k := 0; k+8 <= len(b); k += 8 {
				states[binary.LittleEndian.Uint64(b[k:])] = struct{}{}
			}
		}
		for _, fl := range r.res.Failures {
			if violation != nil && len(violation.Choices) <= len(fl.Choices) {
				continue
			}
			// Confirm: the same choices have to fail every time
			if fl.Slow {
				if replays(fl, 1) == 1 {
					violation = fl
				}
				continue
			}
			fails := replays(fl, 5)
			if fails < 5 {
				// It may depend on earlier executions in the same process
				again := runShard(i)
				if again.res == nil || len(again.res.Failures) == 0 {
					notes = append(notes, fmt.Sprintf("a failure of %s %v could not be reproduced (%d of 5) and is not reported", fl.Family, fl.Choices, fails))
					continue
				}
				fl = again.res.Failures[0]
				fl.Message += fmt.Sprintf(" (reproduced by running shard %d of %d again; alone it fails %d times of 5)", i, *procs, fails)
			}
			violation = fl
		}
	}
	var later []int
	for _, i := range all {
		if r := runs[i].res; r != nil && len(r.Failures) == 0 {
			later = append(later, i)
		} else {
			merge(i)
		}
	}
	if _, err := os.Stat(stopFile); err == nil && violation == nil { // stopped for nothing
		runAll(later)
	}
	for _, i := range later {
		merge(i)
	}

	// Separate free-running pass under the race detector
	raceRuns := 0
	if *race != "" && violation == nil {
		cmd := exec.Command(*race, "free", "-prop", *prop, "-tier", *tier)
		cmd.SysProcAttr = attr
		cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "HOME="+scratch, "GORACE=halt_on_error=1 exitcode=66")
		cmd.Dir = scratch
		o, err := cmd.CombinedOutput()
		fmt.Sscanf(lastLine(string(o)), "free runs %d", &raceRuns)
		if err != nil {
			text := string(o)
			if strings.Contains(text, "DATA RACE") || strings.Contains(text, "concurrent map") || strings.Contains(text, "FREE-RUN FAILURE") {
				violation = &failure{Property: *prop, Family: "free-running pass under the race detector",
					Message: head(text, 4000)}
			} else {
				fmt.Fprintln(os.Stderr, "free-running pass failed:", head(text, 3000))
				finish(3)
			}
		}
	}

	exhaustive := len(total.Capped) == 0 && *only == "" && violation == nil
	cov := map[string]any{
		"states":                        len(states),
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Executions,
		"samples":                       firstN(total.Samples, 8),
		"exhaustive":                    exhaustive,
		"executions_per_family":         total.PerFamily,
		"completed_depth_per_family":    total.Completed,
		"capped":                        total.Capped,
		"build":                         *mode,
	}
	if total.StatesFull {
		cov["states_note"] = "the set of distinct states was capped; the count is a lower bound"
	}
	if *race != "" {
		cov["free_running_race_detector_runs"] = raceRuns
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	nviol := 0
	if violation != nil {
		nviol = 1
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": p.Assumptions, "violations": nviol,
	}
	if *evidence != "" {
		os.MkdirAll(filepath.Dir(*evidence), 0755)
		writeJSON(*evidence, ev)
	}
	keys := []string{}
	for k := range total.PerFamily {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("%-36s depth %d %9d executions\n", k, total.Completed[k], total.PerFamily[k])
	}
	fmt.Printf("%s %s: %d executions, %d operations, %d distinct states, exhaustive within bounds: %v, build: %s, %.1f s\n",
		*prop, *tier, total.Executions, total.Transitions, len(states), exhaustive, *mode, time.Since(start).Seconds())
	for f, c := range total.Capped {
		fmt.Println("capped:", f, c)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	seen := map[string]bool{}
	for _, k := range total.KnownHit {
		if !seen[k.Key] {
			seen[k.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, head(k.Message, 300))
		}
	}
	if violation != nil {
		rp := filepath.Join(filepath.Dir(*evidence), "replays", *prop+".json")
		os.MkdirAll(filepath.Dir(rp), 0755)
		writeJSON(rp, violation)
		fmt.Printf("%s\n", head(violation.Message, 3000))
		for _, l := range violation.Log {
			fmt.Println("  ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		finish(1)
	}
	finish(0)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	return s[strings.LastIndex(s, "\n")+1:]
}

func firstN(s []string, n int) []string {
	if s == nil {
		s = []string{}
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}
