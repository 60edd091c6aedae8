package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzrt"
)

// The scheduler: the threads of an execution are goroutines of which exactly
// one runs. Instrumented code calls point() before every statement; there the
// explorer may let another thread run (a preemption, of which there is a
// bounded number) and it decides who runs when a thread ends or blocks.

type cthread struct {
	wake   chan struct{}
	done   bool
	result []any
	clock  []int
}

type sched struct {
	c       *Ctx
	threads []*cthread
	cur     int
	left    int   // preemptions left
	where   grain // where preemptions are
	abort   chan struct{}
	dead    bool
	why     any // panic value that ends the execution
	fin     chan struct{}
	wg      sync.WaitGroup
	spins   int

	published []int // clock of everything done before the synchronizations so far
	vars      map[string]*access
}

// access is the last use of a package-level variable by each thread.
type access struct{ writes, reads []int }

// touch is called before a statement which uses a package-level variable. Two
// uses of it, one of which writes, with no synchronization between them are a
// data race.
func (s *sched) touch(name string, write bool) {
	n := len(s.threads)
	a := s.vars[name]
	if a == nil {
		a = &access{make([]int, n), make([]int, n)}
		s.vars[name] = a
	}
	me := s.threads[s.cur]
	for i := range s.threads {
		if i != s.cur && (a.writes[i] > me.clock[i] || write && a.reads[i] > me.clock[i]) {
			s.c.Failf("data race on %s: two threads use it, one changing it, without synchronization", name)
		}
	}
	if write {
		a.writes[s.cur] = me.clock[s.cur]
	} else {
		a.reads[s.cur] = me.clock[s.cur]
	}
}

// synchronized is called at locks, unlocks and everything alike: what was done
// before an earlier one, by any thread, has happened before this.
func (s *sched) synchronized() {
	me := s.threads[s.cur]
	for i := range s.threads {
		me.clock[i] = max(me.clock[i], s.published[i])
		s.published[i] = max(s.published[i], me.clock[i])
	}
	me.clock[s.cur]++
}

type aborted struct{}

type grain int

const (
	statements grain = iota // before every statement
	entries                 // at the start of functions and next to uses of package-level variables
	globals                 // next to uses of package-level variables
)

func (s *sched) others() []int {
	var out []int
	for i, t := range s.threads {
		if i != s.cur && !t.done {
			out = append(out, i)
		}
	}
	return out
}

func (s *sched) switchTo(i int) {
	me := s.threads[s.cur]
	s.cur = i
	s.threads[i].wake <- struct{}{}
	s.wait(me)
}

func (s *sched) wait(t *cthread) {
	select {
	case <-t.wake:
		if s.dead {
			panic(aborted{})
		}
	case <-s.abort:
		panic(aborted{})
	}
}

func (s *sched) point() {
	entry := zzrt.Entry
	zzrt.Entry = false
	if s.left == 0 || s.where == globals && !zzrt.Shared || s.where == entries && !zzrt.Shared && !entry {
		return
	}
	o := s.others()
	if len(o) == 0 {
		return
	}
	if k := s.c.Choose(len(o) + 1); k > 0 {
		s.left--
		s.switchTo(o[k-1])
	}
}

func (s *sched) spin() {
	o := s.others()
	if s.spins++; len(o) == 0 || s.spins > 10000 {
		s.c.Failf("the threads wait for each other forever")
	}
	s.switchTo(o[s.c.Choose(len(o))])
}

// interleave runs the functions under the scheduler and returns their results.
func interleave(c *Ctx, preemptions int, where grain, fs []func() []any) []string {
	s := &sched{c: c, left: preemptions, where: where, abort: make(chan struct{}), fin: make(chan struct{})}
	s.vars, s.published = map[string]*access{}, make([]int, len(fs))
	for i := range fs {
		s.threads = append(s.threads, &cthread{wake: make(chan struct{}, 1), clock: make([]int, len(fs))})
		s.threads[i].clock[i] = 1
	}
	finish := func() {
		s.dead = true
		close(s.abort)
	}
	for i, f := range fs {
		t := s.threads[i]
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer func() {
				r := recover()
				switch r.(type) {
				case nil, aborted:
					return
				case skipped, pruned, failed, zzrt.StepLimit:
				default:
					r = fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack())))
				}
				if !s.dead {
					s.why = r
					finish()
				}
			}()
			s.wait(t)
			t.result = f()
			t.done = true
			if o := s.others(); len(o) > 0 {
				next := o[c.Choose(len(o))]
				s.cur = next
				s.threads[next].wake <- struct{}{}
			} else {
				finish()
			}
		}()
	}
	s.cur = c.Choose(len(fs))
	zzrt.Hook, zzrt.SpinHook, zzrt.Touched, zzrt.Synced = s.point, s.spin, s.touch, s.synchronized
	s.threads[s.cur].wake <- struct{}{}
	s.wg.Wait()
	zzrt.Hook, zzrt.SpinHook, zzrt.Touched, zzrt.Synced = nil, nil, nil, nil
	if s.why != nil {
		if msg, ok := s.why.(string); ok {
			c.Failf("panic: %s", msg)
		}
		panic(s.why)
	}
	out := make([]string, len(fs))
	for i, t := range s.threads {
		out[i] = render(t.result)
	}
	return out
}

// env is what the threads share: inputs nobody changes.
type env struct {
	doc, other tson.Tson
	text       []byte
	indented   []byte
	compat     []byte
	plain      any
	patch      tsonpatch.Patch
	patchText  []byte
	events     []exp.TsonPatch
	base       *logument.Logument // owned by the thread that runs "original"
	slice      *logument.Logument
	tslice     *logument.Logument
	copy       *logument.Logument
}

func concDoc() *N {
	return obj("a", num(1, 1), "o", obj("x/y", str("s", 2), "b", boo(true, -1)), "l", arr(num(1, 1), obj("k", num(2.5, 3)), null))
}

func concPatch() []Op {
	return []Op{rpl("/a", 2.0, 4), rpl("/o/x~1y", "t", 5), rem("/l/0", 5), add("/n/m", true, 6), rpl("/a", 2.0, 7)}
}

func newEnv(lgm bool) *env {
	d := concDoc()
	o, _ := refPatch(d, concPatch()[:2])
	e := &env{doc: d.toT(), other: o.toT(), text: []byte(text(d)), plain: d.toJ(), patch: tsonpatch.Patch(concPatch()), patchText: opsJSON(concPatch())}
	e.indented, _ = tson.MarshalIndent(e.doc, "", "  ")
	e.compat = []byte(`{"a":{"value":1,"timestamp":5},"l":[{"value":"x","timestamp":9007199254740993},null,true]}`)
	e.events = []exp.TsonPatch{{Op: "replace", Path: "A.B", Value: 1.5, Timestamp: 1}, {Op: "replace", Path: "A.C", Value: "x", Timestamp: 2}, {Op: "replace", Path: "A.B", Value: 2.5, Timestamp: 3}}
	if lgm {
		e.base = logument.NewLogument(e.doc, e.patch)
		e.base.Append()
		e.base.Store(tsonpatch.Patch{rpl("/a", 3.0, 8)})
		e.base.Append()
		e.slice = e.base.Slice(0, 2)
		e.tslice = e.base.TemporalSlice(4, 8)
		e.copy = logument.NewLogument(e.base.Snapshot(1), e.base.Patches[2])
	}
	return e
}

// shared is a fingerprint of everything shared.
func (e *env) fingerprint() string {
	j, _ := json.Marshal(e.plain)
	ev, _ := json.Marshal(e.events)
	return strings.Join([]string{fromT(e.doc).String(), fromT(e.other).String(), string(e.text), string(e.indented), string(e.compat), string(j), opsStr(e.patch), string(e.patchText), string(ev)}, "\n")
}

type program struct {
	name string
	run  func(e *env) []any
	lgm  bool // uses the prepared documents, each of which has one user
}

// result is what one call returned. It is rendered when all threads are done,
// so that it is also seen to stay as it is.
type result2 struct {
	v   any
	err error
}

func show(v any, err error) any { return result2{v, err} }

func render(list []any) string {
	var out []string
	for _, x := range list {
		switch t := x.(type) {
		case string:
			out = append(out, t)
		case result2:
			s := ""
			switch v := t.v.(type) {
			case tson.Object, tson.Array, tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool], nil:
				s = fromT(v).String()
			case []byte:
				s = string(v)
			case tsonpatch.Patch:
				s = opsStr(v)
			case map[uint64]tsonpatch.Patch:
				s = mapStr(v)
			default:
				s = jstr(v)
			}
			out = append(out, fmt.Sprint(s, t.err))
		default:
			out = append(out, fmt.Sprint(x))
		}
	}
	return strings.Join(out, "\n")
}

// journey uses a document in every way.
func journey(lg *logument.Logument, from uint64, n float64) []any {
	var out []any
	say := func(v any) { out = append(out, show(v, nil)) }
	last := func() uint64 { return lg.Version[len(lg.Version)-1] }
	lg.Store(tsonpatch.Patch{rpl("/a", n, 10)})
	lg.Set(last(), rpl("/o/b", n, 11))
	lg.TestSet(last(), rpl("/a", n, 12))
	say(lg.TemporalSnapshot(10))
	lg.Append()
	say(lg.Snapshot(last()))
	say(lg.Track(from, last()))
	return out
}

func programs() []program {
	one := func(v any, err error) []any { return []any{show(v, err)} }
	ps := []program{
		{"parse", func(e *env) []any { return one(parseText(e.text)) }, false},
		{"parse-indented", func(e *env) []any { return one(parseText(e.indented)) }, false},
		{"marshal", func(e *env) []any { return one(tson.Marshal(e.doc)) }, false},
		{"marshal-short", func(e *env) []any {
			var out []any
			for _, d := range []tson.Tson{tson.Leaf[string]{Value: "v", Timestamp: 1}, tson.Array{}, tson.Object{"k": tson.Leaf[bool]{Value: true, Timestamp: -1}}} {
				out = append(out, show(tson.Marshal(d)), show(tson.MarshalIndent(d, "", " ")))
			}
			return out
		}, false},
		{"marshal-indent", func(e *env) []any { return one(tson.MarshalIndent(e.doc, "", " ")) }, false},
		{"compatible", func(e *env) []any {
			b, err := tson.ToCompatibleTsonBytes(e.doc)
			var v any
			err2 := tson.ToCompatibleTson(e.doc, &v)
			s, err3 := tson.ToCompatibleTsonBytesSorted(e.doc)
			var j any
			json.Unmarshal(b, &j)
			return []any{show(j, err), show(v, err2), show(s, err3)}
		}, false},
		{"from-compatible", func(e *env) []any {
			var t tson.Tson
			err := tson.FromCompatibleTsonBytes(e.compat, &t)
			return one(t, err)
		}, false},
		{"plain-json", func(e *env) []any {
			var j any
			err := tson.ToJson(e.doc, &j)
			var t tson.Tson
			err2 := tson.FromJson(e.plain, &t)
			return []any{show(j, err), show(t, err2)}
		}, false},
		{"compare", func(e *env) []any {
			a, err := tson.Equal(e.doc, e.other)
			b, err2 := tson.EqualWithoutTimestamp(e.doc, e.doc)
			return []any{fmt.Sprint(a, err, b, err2, tson.GetLatestTimestamp(e.doc))}
		}, false},
		{"lookup", func(e *env) []any {
			var out []any
			for _, p := range []string{"/o/x~1y", "l.1.k", "/l/0/q", ""} {
				v, err := getValue(e.doc, p)
				out = append(out, show(v, err))
			}
			return out
		}, false},
		{"apply", func(e *env) []any { return one(tsonpatch.ApplyPatch(e.doc, e.patch)) }, false},
		{"apply-one", func(e *env) []any {
			return []any{show(tsonpatch.ApplyOperation(e.doc, rem("/l/1/k", 9))), show(tsonpatch.ApplyOperation(e.doc, add("/l/1/k", "v", 9)))}
		}, false},
		{"generate", func(e *env) []any { return one(tsonpatch.GeneratePatch(e.doc, e.other)) }, false},
		{"generate-timestamps", func(e *env) []any { return one(tsonpatch.GeneratePatchWithTimestamp(e.other, e.doc)) }, false},
		{"generate-keys", func(e *env) []any {
			one := tson.Leaf[float64]{Value: 1, Timestamp: 1}
			a := tson.Object{"~k": one, "r/1": one, "r2": one, "": tson.Object{"x.y": one}}
			b := tson.Object{"~k": tson.Leaf[string]{Value: "v", Timestamp: 2}, "~n": one, "/": one, "": tson.Object{"0": one}}
			return []any{show(tsonpatch.GeneratePatch(a, b)), show(tsonpatch.GeneratePatchWithTimestamp(a, b))}
		}, false},
		{"patch-text", func(e *env) []any {
			b, err := e.patch[0].Marshal()
			b2, err2 := e.patch[1].Marshal()
			return []any{e.patch.String(), show(b, err), show(b2, err2), e.patch[1].String()}
		}, false},
		{"patch-parse", func(e *env) []any { return one(tsonpatch.Unmarshal(e.patchText)) }, false},
		{"document", func(e *env) []any { return journey(logument.NewLogument(e.doc, nil), 0, 5) }, false},
		{"document-patches", func(e *env) []any {
			lg := logument.NewLogument(e.doc, e.patch)
			lg.Append()
			return journey(lg, 1, 2)
		}, false},
		{"document-text", func(e *env) []any {
			lg := logument.NewLogument(e.text, nil)
			lg.Store(e.patchText)
			lg.Append()
			return []any{show(lg.Snapshot(1), nil), show(lg.TemporalTrack(4, 6), nil)}
		}, false},
		{"document-history", func(e *env) []any {
			lg := logument.NewLogument(e.doc, nil)
			lg.Store(e.patch)
			lg.Append()
			h := lg.History("/a")
			lg.Compact("/a")
			return []any{show(h["/a"], nil), show(lg.Track(0, 1), nil), show(lg.TemporalSnapshot(6), nil)}
		}, false},
		{"document-slices", func(e *env) []any {
			lg := logument.NewLogument(e.doc, nil)
			lg.Store(e.patch)
			lg.Append()
			s, t := lg.Slice(0, 1), lg.TemporalSlice(4, 6)
			s.Store(e.patch[3:4])
			s.Append()
			t.Append()
			return []any{show(s.Snapshot(2), nil), show(t.TemporalSnapshot(5), nil), show(lg.Snapshot(1), nil)}
		}, false},
		{"temporal-json", func(e *env) []any {
			d, err := exp.FromTSONPatches(e.events)
			if err != nil {
				return []any{err.Error()}
			}
			m, err := d.TemporalSnapshot(2)
			t, err2 := d.TemporalTrack("A.B", 1, 3)
			return []any{show(m, err), show(t, err2)}
		}, false},
		{"original", func(e *env) []any { return journey(e.base, 0, 21) }, true},
		{"slice", func(e *env) []any { return journey(e.slice, 0, 22) }, true},
		{"temporal-slice", func(e *env) []any { return journey(e.tslice, e.tslice.Version[0], 23) }, true},
		{"copy", func(e *env) []any { return journey(e.copy, 0, 24) }, true},
	}
	return ps
}

var aloneMemo = map[int]string{}

func alone(i int, p program) string {
	if s, ok := aloneMemo[i]; ok {
		return s
	}
	zzrt.Reset()
	s := render(p.run(newEnv(p.lgm)))
	aloneMemo[i] = s
	return s
}

var variesMemo = map[int]bool{}

// sameResult compares the result of a program with the one it has alone. Where
// the order of a map shows in results and is the runtime's own, results alone
// vary as well; then they have to be equal but for the order of their bytes.
func sameResult(i int, p program, got, want string) bool {
	if got == want {
		return true
	}
	varies, ok := variesMemo[i]
	if !ok {
		for range 20 {
			zzrt.Reset()
			varies = varies || render(p.run(newEnv(p.lgm))) != want
		}
		variesMemo[i] = varies
	}
	return varies && freeSame(got, want)
}

// together runs programs in every schedule and compares.
func together(c *Ctx, ps []program, pick []int, preemptions int, where grain) {
	lgm := false
	want := []string{}
	names := []string{}
	used := map[int]bool{}
	for _, i := range pick {
		if ps[i].lgm && used[i] {
			c.Prune()
		}
		used[i] = true
		lgm = lgm || ps[i].lgm
		want = append(want, alone(i, ps[i]))
		names = append(names, ps[i].name)
	}
	c.Log("threads %v, %d preemptions", names, preemptions)
	zzrt.Reset()
	e := newEnv(lgm)
	before := e.fingerprint()
	zzrt.Reset()
	var fs []func() []any
	for _, i := range pick {
		fs = append(fs, func() []any { return ps[i].run(e) })
		c.Step()
	}
	got := interleave(c, preemptions, where, fs)
	for i := range got {
		if !sameResult(pick[i], ps[pick[i]], got[i], want[i]) {
			c.Failf("%s, running with %v, gives\n%s\nalone it gives\n%s", names[i], names, head(got[i], 1500), head(want[i], 1500))
		}
	}
	c.State(strings.Join(names, "+") + strings.Join(got, "\n"))
	if after := e.fingerprint(); after != before {
		c.Failf("running %v changes what they share: %s", names, diffLines(before, after))
	}
}

func init() {
	register(&Prop{ID: "C22", Setup: func(w *worker) { runtime.GOMAXPROCS(1) }, Assumptions: []string{
		"the programs of the threads come from the list in mc/p_conc.go; the scheduler switches threads before statements and at locks of the code in the repository, sequentially consistent",
		"goroutines that the code starts on its own are not scheduled; data races as such are looked for by a separate free-running pass under the race detector, which is not exhaustive",
	}, Families: func(tier string) []Family {
		ps := programs()
		extra := 1
		pair := func(c *Ctx) []int { return []int{c.Choose(len(ps)), c.Choose(len(ps))} }
		all := 0
		if tier == "thorough" {
			all = 1
		}
		light := 0
		for _, p := range ps {
			if !strings.HasPrefix(p.name, "document") && !p.lgm && p.name != "temporal-json" {
				light++
			}
		}
		return []Family{
			// depth 1: no preemption, depth 2: one before any statement
			{Name: "inputs", Depth: 2, Extra: extra, Limit: 1 << 40, Weight: 4, Body: func(c *Ctx) {
				p := pair(c)
				if p[0] > p[1] || p[1] >= light {
					c.Prune()
				}
				together(c, ps, p, c.Depth-1, statements)
			}},
			{Name: "documents", Depth: 1 + all, Extra: 1, Limit: 1 << 40, Weight: 1 + 6*all, Body: func(c *Ctx) {
				p := pair(c)
				if p[0] > p[1] || p[1] < light {
					c.Prune()
				}
				together(c, ps, p, c.Depth-1, statements)
			}},
			{Name: "entries", Depth: 2, Extra: extra, Limit: 1 << 40, Weight: 4, Body: func(c *Ctx) {
				p := pair(c)
				if p[0] > p[1] {
					c.Prune()
				}
				together(c, ps, p, c.Depth-1, entries)
			}},
			// preemptions only next to uses of package-level variables
			{Name: "pairs-globals", Depth: 2 + all, Extra: 2, Limit: 1 << 40, Weight: 2, Body: func(c *Ctx) {
				p := pair(c)
				if p[0] > p[1] {
					c.Prune()
				}
				together(c, ps, p, c.Depth-1, globals)
			}},
			{Name: "triples-globals", Depth: 1 + all, Extra: 2, Limit: 1 << 40, Body: func(c *Ctx) {
				p := append(pair(c), c.Choose(len(ps)))
				if p[0] > p[1] || p[1] > p[2] {
					c.Prune()
				}
				together(c, ps, p, c.Depth-1, globals)
			}},
			{Name: "twice", Depth: 1 + all, Extra: 2, Limit: 1 << 40, Body: func(c *Ctx) { // two programs in one thread against one in the other
				p := append(pair(c), 0)
				p[2] = []int{0, 3, 4, 10, 13, 17}[c.Choose(6)]
				if ps[p[0]].lgm || ps[p[1]].lgm || c.Depth > 1 && ps[p[1]].name[:3] == "doc" {
					c.Prune()
				}
				a, b, d := alone(p[0], ps[p[0]]), alone(p[1], ps[p[1]]), alone(p[2], ps[p[2]])
				c.Log("%s then %s against %s", ps[p[0]].name, ps[p[1]].name, ps[p[2]].name)
				zzrt.Reset()
				e := newEnv(false)
				got := interleave(c, c.Depth-1, globals, []func() []any{
					func() []any { return append(append(ps[p[0]].run(e), "---"), ps[p[1]].run(e)...) },
					func() []any { return ps[p[2]].run(e) },
				})
				g0, g1, ok := strings.Cut(got[0], "\n---\n")
				if !ok || !sameResult(p[0], ps[p[0]], g0, a) || !sameResult(p[1], ps[p[1]], g1, b) || !sameResult(p[2], ps[p[2]], got[1], d) {
					c.Failf("gives\n%s\nand\n%s\ninstead of\n%s\nand\n%s", got[0], got[1], a+"\n---\n"+b, d)
				}
			}},
		}
	}})
}

// free runs every pair of programs freely, each pair in a process of its own,
// for the race detector.
func free(args []string) {
	fs := flag.NewFlagSet("free", flag.ExitOnError)
	fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	pair := fs.String("pair", "", "")
	fs.Parse(args)
	ps := programs()
	if *pair != "" {
		var i, j int
		fmt.Sscanf(*pair, "%d,%d", &i, &j)
		freePair(ps, i, j)
		return
	}
	rounds := 1
	if *tier == "thorough" {
		rounds = 10
	}
	var jobs [][2]int
	for round := 0; round < rounds; round++ {
		for i := range ps {
			for j := i; j < len(ps); j++ {
				if i != j || !ps[i].lgm {
					jobs = append(jobs, [2]int{i, j})
				}
			}
		}
	}
	exe, _ := os.Executable()
	next := make(chan [2]int)
	var mu sync.Mutex
	runs := 0
	var bad []byte
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for job := range next {
				o, err := exec.Command(exe, "free", "-pair", fmt.Sprintf("%d,%d", job[0], job[1])).CombinedOutput()
				mu.Lock()
				runs++
				if err != nil && bad == nil {
					bad = o
				}
				mu.Unlock()
			}
		}()
	}
	for _, job := range jobs {
		mu.Lock()
		stop := bad != nil
		mu.Unlock()
		if stop {
			break
		}
		next <- job
	}
	close(next)
	wg.Wait()
	if bad != nil {
		os.Stdout.Write(bad)
		os.Exit(1)
	}
	fmt.Printf("free runs %d\n", runs)
}

func freePair(ps []program, i, j int) {
	e := newEnv(ps[i].lgm || ps[j].lgm)
	res := make([][]any, 2)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k, n := range []int{i, j} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[k] = ps[n].run(e)
		}()
	}
	close(start)
	wg.Wait()
	got := []string{render(res[0]), render(res[1])}
	want := []string{alone(i, ps[i]), alone(j, ps[j])}
	if !freeSame(got[0], want[0]) || !freeSame(got[1], want[1]) {
		fmt.Printf("FREE-RUN FAILURE: %s and %s together give\n%s\n%s\nalone\n%s\n%s\n", ps[i].name, ps[j].name, got[0], got[1], want[0], want[1])
		os.Exit(1)
	}
}

// freeSame compares results where map order is up to the runtime.
func freeSame(a, b string) bool {
	x, y := []byte(a), []byte(b)
	slices.Sort(x)
	slices.Sort(y)
	return slices.Equal(x, y)
}
