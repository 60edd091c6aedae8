package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// Extreme inputs: a stack or memory that is exhausted ends the whole process,
// so these are tried in a process of their own, with the stack Go allows by
// default and 8 GB of address space.

type extremeResult struct {
	Outcome string // "error" (a panic of a Logument as well) or "done"
	Depth   int    // of the document made
	Problem string
}

// deepForms are ways of nesting one level: what opens it, what closes it.
var deepForms = [][2]string{
	{"[", "]"}, {`{"k":`, "}"}, {`[<1> 5, `, "]"}, {`{"a" <1>: 5, "k": `, "}"}, {"[ \n", "\t]"}, {`[1, "x" <5>, `, ", null]"}, {`{"a": 1, "b": `, ` , "c": {}}`},
}

// hugePaths are paths of n elements, hugeIndices indices for which no memory
// suffices.
var hugePaths = []func(n int) string{
	func(n int) string { return strings.Repeat("/a", n) },
	func(n int) string { return strings.Repeat("/0", n) },
	func(n int) string { return "/l" + strings.Repeat("/0", n) },
	func(n int) string { return strings.Repeat("/l/0", n/2) },
	func(n int) string { return "/o/k" + strings.Repeat("/~1", n) },
	func(n int) string { return strings.Repeat("/", n) },
	func(n int) string { return "/l/1" + strings.Repeat("/new", n) + "/3" },
}
var hugeIndices = []string{"8589934592", "4611686018427387904", "9223372036854775807", "9223372036854775808", "99999999999999999999"}
var hugeIndexPaths = []string{"/l/%s", "/l/%s/k", "/l/0/%s", "/o/n/l/%s", "/n/0/%s", "/l/1/x/%s/0", "/%s"}

func extremeDoc() *N {
	return obj("l", arr(arr(num(1, 1)), obj("x", arr(str("v", 2)))), "o", obj("k", obj("/", num(3, 3))))
}

func depthOf(v tson.Value) (d int) {
	for {
		switch x := v.(type) {
		case tson.Array:
			v = nil
			for _, e := range x {
				switch e.(type) {
				case tson.Array, tson.Object:
					v = e
				}
			}
		case tson.Object:
			v = nil
			for _, k := range []string{"k", "b", "a", "l"} {
				switch x[k].(type) {
				case tson.Array, tson.Object:
					v = x[k]
				}
				if v != nil {
					break
				}
			}
		default:
			return
		}
		d++
		if v == nil {
			return
		}
	}
}

func init() {
	commands["extreme"] = func(args []string) {
		debug.SetMaxStack(1000000000) // Go's own
		debug.SetGCPercent(100)
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		n := make([]int, len(args))
		for i := range args {
			n[i], _ = strconv.Atoi(args[i])
		}
		var out extremeResult
		switch args[0] {
		case "parse": // form, levels, closed levels
			f := deepForms[n[1]]
			text := []byte(strings.Repeat(f[0], n[2]) + "7" + strings.Repeat(f[1], n[3]))
			var t tson.Tson
			if err := tson.Unmarshal(text, &t); err != nil {
				out.Outcome = "error"
			} else {
				out.Outcome, out.Depth = "done", depthOf(t)
				if n[2] <= 9999 {
					b, err := tson.Marshal(t)
					var u tson.Tson
					if err == nil {
						err = tson.Unmarshal(b, &u)
					}
					if eq, e := tson.Equal(t, u); err != nil || e != nil || !eq {
						out.Problem = fmt.Sprintf("written and parsed again gives %v, equal %v %v", err, eq, e)
					}
				}
			}
		case "apply", "set": // path kind, length or index, operation kind, Set or TestSet
			var path string
			if n[1] < len(hugePaths) {
				path = hugePaths[n[1]](n[2])
			} else {
				path = fmt.Sprintf(hugeIndexPaths[n[1]-len(hugePaths)], hugeIndices[n[2]])
			}
			op := Op{Op: tsonpatch.OpType(opKinds[n[3]]), Path: path, Value: 1.0, Timestamp: 9}
			doc := extremeDoc()
			t := doc.toT()
			if args[0] == "apply" {
				got, err := tsonpatch.ApplyPatch(t, tsonpatch.Patch{op})
				out.Outcome = "done"
				if err != nil {
					out.Outcome = "error"
					if got != nil {
						out.Problem = "an error together with a document"
					}
				} else {
					out.Depth = depthOf(got)
				}
				if !sameDoc(t, doc) {
					out.Problem = "the document given is modified"
				}
				break
			}
			out.Outcome = "done"
			lg := logument.NewLogument(t, tsonpatch.Patch{rpl("/l/0/0", 2.0, 5)})
			if err := lg.Append(); err != nil {
				out.Problem = "Append fails: " + err.Error()
				break
			}
			set := lg.Set
			if n[4] == 1 {
				set = lg.TestSet
			}
			if catch(func() { set(1, op) }) == nil {
				break
			}
			out.Outcome = "error"
			if len(lg.PatchPool) > 0 {
				out.Problem = "the refused change is pending"
			}
			if got := lg.Snapshot(1); !sameDoc(got, obj("l", arr(arr(num(2, 5)), obj("x", arr(str("v", 2)))), "o", obj("k", obj("/", num(3, 3))))) {
				out.Problem = "version 1 is " + fromT(got).String()
			}
		}
		b, _ := json.Marshal(out)
		fmt.Printf("\nRESULT %s\n", b)
	}
}

// extreme runs one of them.
func (c *Ctx) extreme(what string, args ...any) extremeResult {
	c.own()
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	a := []string{"extreme"}
	for _, x := range args {
		a = append(a, fmt.Sprint(x))
	}
	c.Log("%s", what)
	cmd := exec.Command(exe, a...)
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err = c.child(cmd, 40)
	c.Step()
	i := strings.LastIndex(so.String(), "\nRESULT ")
	if err != nil || i < 0 {
		c.Failf("%s ends the process: %v %s", what, err, head(se.String(), 600))
	}
	var r extremeResult
	if err := json.Unmarshal([]byte(so.String()[i+8:]), &r); err != nil {
		panic("harness: " + err.Error())
	}
	if r.Problem != "" {
		c.Failf("%s: %s", what, r.Problem)
	}
	c.State(what + r.Outcome)
	return r
}

// deepFamily: nesting up to 9999 levels is parsed, more is parsed or refused.
func deepFamily() Family {
	return Family{Name: "deep", Body: func(c *Ctx) {
		f := c.Choose(len(deepForms))
		sizes := []int{2000, 9999, 10000, 10001, 65537, 6000037}
		n := sizes[c.Choose(len(sizes))]
		closed := []int{n, 0, n - 1}[c.Choose(3)]
		r := c.extreme(fmt.Sprintf("parsing %d levels of %s…%s, %d of them closed", n, deepForms[f][0], deepForms[f][1], closed), "parse", f, n, closed)
		switch {
		case closed < n && r.Outcome != "error":
			c.Failf("%d levels of which %d are closed are accepted", n, closed)
		case closed == n && n <= 9999 && r.Outcome != "done":
			c.Failf("%d levels are refused", n)
		case r.Outcome == "done" && r.Depth != n:
			c.Failf("%d levels are read as %d", n, r.Depth)
		}
	}}
}

// hugeFamily: paths and indices too large to be held.
func hugeFamily(cmd string) Family {
	return Family{Name: "huge", Body: func(c *Ctx) {
		kind, how := 0, 0
		if cmd == "apply" {
			kind = []int{1, 0, 2}[c.Choose(3)] // replace, add, remove
		} else {
			kind = 1 - c.Choose(2)
			how = c.Choose(2)
		}
		what := opKinds[kind]
		if cmd == "set" {
			what = []string{"Set with ", "TestSet with "}[how] + what
		}
		if c.Bool() {
			p := c.Choose(len(hugePaths))
			n := []int{9000, 3000017}[c.Choose(2)]
			what += fmt.Sprintf(" at a path of %d elements like %q", n, hugePaths[p](2))
			r := c.extreme(what, cmd, p, n, kind, how)
			if kind > 1 && r.Outcome == "done" {
				c.Failf("%s is not refused", what)
			}
			return
		}
		p, i := c.Choose(len(hugeIndexPaths)), c.Choose(len(hugeIndices))
		what += " at " + fmt.Sprintf(hugeIndexPaths[p], hugeIndices[i])
		r := c.extreme(what, cmd, len(hugePaths)+p, i, kind, how)
		if r.Outcome == "done" && (p < 3 || p < 6 && i < 3) { // otherwise it may be a key
			c.Failf("%s is not refused", what)
		}
	}}
}
