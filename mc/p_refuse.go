package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// C33: requests which cannot be answered are refused and change nothing.

// refuse makes a request which must not be answered.
func (s *sess) refuse(what string, f func()) {
	s.c.Step()
	s.c.Log("%s", what)
	if r := catch(f); r == nil {
		s.c.Failf("%s is not refused\n  of %s", what, versStr(s.m))
	}
}

// requests are requests beyond what the document has.
func (s *sess) requests(w *world) {
	l, f := s.m.last(), s.m.first
	beyond := []uint64{l + 1, l + 2, l + 1<<32, math.MaxUint64}
	for _, v := range beyond {
		s.refuse(fmt.Sprintf("Snapshot(%d)", v), func() { s.lg.Snapshot(v) })
	}
	for v := uint64(0); v < f; v++ { // before a slice
		s.refuse(fmt.Sprintf("Snapshot(%d)", v), func() { s.lg.Snapshot(v) })
		s.refuse(fmt.Sprintf("Slice(%d,%d)", v, l), func() { s.lg.Slice(v, l) })
	}
	pairs := [][2]uint64{{l + 1, l + 1}, {l + 1, l + 2}, {f, math.MaxUint64}, {math.MaxUint64, f}}
	for vi := f; vi <= l; vi++ {
		pairs = append(pairs, [2]uint64{vi, l + 1}, [2]uint64{l + 1, vi})
		for vj := f; vj < vi; vj++ {
			pairs = append(pairs, [2]uint64{vi, vj})
		}
	}
	for _, p := range pairs {
		s.refuse(fmt.Sprintf("Track(%d,%d)", p[0], p[1]), func() { s.lg.Track(p[0], p[1]) })
		s.refuse(fmt.Sprintf("Slice(%d,%d)", p[0], p[1]), func() { s.lg.Slice(p[0], p[1]) })
	}
	ts := append([]int64{math.MinInt64, 0, 1}, s.m.times()...)
	ts = append(ts, math.MaxInt64)
	for i, tj := range ts {
		for _, ti := range ts[i+1:] {
			if ti > tj {
				s.refuse(fmt.Sprintf("TemporalTrack(%d,%d)", ti, tj), func() { s.lg.TemporalTrack(ti, tj) })
				s.refuse(fmt.Sprintf("TemporalSlice(%d,%d)", ti, tj), func() { s.lg.TemporalSlice(ti, tj) })
			}
		}
	}
}

// notPatches are no lists of changes.
var notPatches = []any{
	"", " ", "[", "]", "{", "nothing", `[{]`, `[{"op":"add","path":"/a","value":1,"timestamp":1}`,
	`[{"op":"add","path":"/a","value":1,"timestamp":1},]`, `[{"op":"add","path":7,"value":1,"timestamp":1}]`,
	`[{"op":"add","path":"/a","value":1,"timestamp":"soon"}]`, `[{"op":"add","path":"/a","value":tru,"timestamp":1}]`,
	`{"op":"add","path":"/a","value":1,"timestamp":1}`, `[1]`, `["add"]`, `7`, `[{"op":"add"}] []`,
	[]byte(`[`), []byte(""), []byte(`[{"op":"add","path":"/a","timestamp":1e400}]`),
	7, 1.5, true, []string{"/a"}, map[string]any{"op": "add", "path": "/a"}, struct{}{}, []any{}, [2]int{},
}

// refused makes every such request and then asks the document everything.
func (s *sess) refused(w *world) {
	times := s.m.times()
	if len(times) > 6 {
		times = append(append([]int64{}, times[:3]...), times[len(times)-3:]...)
	}
	pool, poolStr := len(s.m.pool), opsStr(s.lg.PatchPool)
	s.requests(w)
	for _, p := range notPatches {
		s.refuse(fmt.Sprintf("Store(%T %q)", p, fmt.Sprint(p)), func() { s.lg.Store(p) })
	}
	for _, op := range w.sets {
		if _, v := memoOp(s.m.cur, op); v == vErr {
			s.set(op, false)
			if op.Op == "add" {
				s.set(op, true)
			}
		}
	}
	if now := opsStr(s.lg.PatchPool); now != poolStr || len(s.m.pool) != pool {
		s.c.Failf("the refused requests change the pending changes from %s to %s", poolStr, now)
	}
	s.recorded()
	s.current()
	before := fp(rebuild(s), times, w.targets)
	if now := fp(s.lg, times, w.targets); now != before {
		s.c.Failf("the refused requests change what the document answers:%s", diffLines(before, now))
	}
}

// gapped are version lists with a gap.
func gapped(n int) (out [][]uint64) {
	var full []uint64
	for v := uint64(0); v <= uint64(n); v++ {
		full = append(full, v)
	}
	for i := 1; i < n; i++ { // one missing
		out = append(out, slices.Delete(slices.Clone(full), i, i+1))
	}
	for i := 1; i <= n; i++ { // all later ones moved by one, and one twice
		up := slices.Clone(full)
		for j := i; j <= n; j++ {
			up[j]++
		}
		out = append(out, up, slices.Insert(slices.Clone(full), i, full[i]))
	}
	return
}

func init() {
	register(&Prop{ID: "C33", Assumptions: []string{
		"documents, changes and times come from the alphabets in mc/worlds.go; histories are bounded by the stated depth or size",
		"a request is refused when the call panics or returns an error instead of an answer",
		"tracks from before the first version of a slice, and stored changes which cannot be applied, are not covered",
	}, Families: func(tier string) []Family {
		d := 3
		if tier == "thorough" {
			d = 4
		}
		final := func(s *sess, w *world) { s.refused(w) }
		queries := []action{actSnapshot, actTSnapshot, actTrack, actTTrack, actSlice, actTSlice, actHistory}
		return families(
			lgmFamilies("histories", worlds(), []int{0}, d, []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", worldNamed("flat", "arrays"), []int{0, 1}, d-1, append([]action{actStore(0), actAppend, actSet, actTestSet, actCompact}, queries...), nil, final),
			lgmFamilies("between", worldNamed("flat", "unordered"), []int{0}, d-1, []action{actStore(0), actAppend, func(s *sess, w *world) []func() {
				return []func(){func() { s.requests(w) }, func() { s.refused(w) }}
			}}, nil, func(s *sess, w *world) { s.append(); s.allSnapshots(true); s.allTracks(); s.recorded() }),
			lgmFamilies("slices", worldNamed("flat", "arrays", "unordered"), []int{0}, d, []action{actStore(0), actAppend}, nil, func(s *sess, w *world) {
				s.append()
				snaps := s.m.snaps()
				vi := s.m.first + uint64(s.c.Choose(len(snaps)))
				vj := vi + uint64(s.c.Choose(len(snaps)-int(vi-s.m.first)))
				if snaps[vi-s.m.first] == nil || snaps[vj-s.m.first] == nil {
					return
				}
				t := s.slice(vi, vj)
				t.requests(w)
				t.recorded()
				t.current()
				t.allSnapshots(false)
				s.requests(w)
				s.recorded()
			}),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				l := s.m.last()
				for _, v := range []uint64{l + 1, l + 2, 2*l + 1, math.MaxUint64} {
					s.refuse(fmt.Sprintf("Snapshot(%d)", v), func() { s.lg.Snapshot(v) })
					for _, u := range someVersions(s.m) {
						s.refuse(fmt.Sprintf("Track(%d,%d)", u, v), func() { s.lg.Track(u, v) })
						s.refuse(fmt.Sprintf("Slice(%d,%d)", u, v), func() { s.lg.Slice(u, v) })
						if u > 0 {
							s.refuse(fmt.Sprintf("Track(%d,%d)", u, u-1), func() { s.lg.Track(u, u-1) })
							s.refuse(fmt.Sprintf("Slice(%d,%d)", u, u-1), func() { s.lg.Slice(u, u-1) })
						}
					}
				}
				s.recorded()
				s.current()
			}),
			hugeFamily("set"),
			Family{Name: "create", Orders: 2, Body: func(c *Ctx) {
				ws := worlds()
				w := pickWorld(c, ws)
				try := func(what string, doc, patches any) {
					c.Step()
					c.Log("NewLogument with %s", what)
					if r := catch(func() { logument.NewLogument(doc, patches) }); r == nil {
						c.Failf("NewLogument with %s is not refused", what)
					}
				}
				full := text(w.doc)
				if !w.doc.leaf() {
					for i := range full {
						try(fmt.Sprintf("the text %q", full[:i]), full[:i], nil)
						try(fmt.Sprintf("the bytes %q", full[:i]), []byte(full[:i]), nil)
					}
				}
				for _, rest := range []string{"}", "]", ",", " 1", `"x"`, "{}", "<1>", "x"} {
					try(fmt.Sprintf("the text %q", full+rest), full+rest, nil)
				}
				for _, d := range []any{7, true, nil, map[string]any{"a": 1}, []any{}, struct{}{}, []string{full}} {
					try(fmt.Sprintf("a %T", d), d, nil)
				}
				for _, p := range notPatches {
					try(fmt.Sprintf("the patches %T %q", p, fmt.Sprint(p)), w.doc.toT(), p)
					try(fmt.Sprintf("the text and the patches %T %q", p, fmt.Sprint(p)), full, p)
				}
				c.State(full)
			}},
			Family{Name: "gaps", Orders: 2, Depth: 3, Extra: 1, Body: func(c *Ctx) {
				ws := worlds()
				w := pickWorld(c, ws)
				s := open(c, w.doc, 0)
				n := 2 + c.Choose(c.Depth)
				for i := 0; i < n; i++ {
					e := w.enabled(s)
					s.store(e[i%len(e)], 0)
					s.append()
				}
				lists := gapped(n)
				list := lists[c.Choose(len(lists))]
				c.Log("the versions are %v", list)
				pool := tsonpatch.Patch(nil)
				if c.Bool() {
					pool = tsonpatch.Patch{add("/pending", true, 7)}
				}
				mk := func() *logument.Logument {
					snaps := map[uint64]tson.Tson{0: w.doc.toT()}
					patches := map[uint64]tsonpatch.Patch{}
					for i, v := range list {
						if i > 0 && i-1 < len(s.m.vers) {
							patches[v] = slices.Clone(tsonpatch.Patch(s.m.vers[i-1]))
						}
					}
					return &logument.Logument{Version: slices.Clone(list), CurrentState: s.m.cur.toT(), Snapshots: snaps, Patches: patches, PatchPool: slices.Clone(pool)}
				}
				lg := mk()
				dump := func() string {
					return fmt.Sprint(lg.Version) + fromT(lg.CurrentState).String() + mapStr(lg.Patches) + opsStr(lg.PatchPool)
				}
				before := dump()
				last := list[len(list)-1]
				try := func(what string, f func() bool) {
					c.Step()
					c.Log("%s", what)
					refused := true
					if r := catch(func() { refused = f() }); r == nil && !refused {
						c.Failf("%s is not refused by a document with the versions %v", what, list)
					}
					if now := dump(); now != before {
						c.Failf("%s on a document with the versions %v changes it\n from %s\n to   %s", what, list, before, now)
					}
				}
				try("Snapshot(0)", func() bool { lg.Snapshot(0); return false })
				try("Snapshot(last)", func() bool { lg.Snapshot(last); return false })
				try("Slice(0,last)", func() bool { lg.Slice(0, last); return false })
				try("TemporalSlice", func() bool { lg.TemporalSlice(0, 100); return false })
				try("Track(0,last)", func() bool { lg.Track(0, last); return false })
				for _, p := range w.targets {
					try("History "+p, func() bool { lg.History(p); return false })
					try("Compact "+p, func() bool { lg.Compact(p); return false })
				}
				if list[len(list)-2]+1 != last && pool != nil {
					try("Append", func() bool { return lg.Append() != nil })
				}
				// the changes of the next version are already there
				lg = &logument.Logument{Version: []uint64{0}, CurrentState: s.m.cur.toT(), Snapshots: map[uint64]tson.Tson{0: w.doc.toT()},
					Patches: map[uint64]tsonpatch.Patch{1: {add("/n", 1.0, 1)}}, PatchPool: tsonpatch.Patch{add("/n", 2.0, 2)}}
				list = lg.Version
				before = dump()
				try("Append over recorded changes", func() bool { return lg.Append() != nil })
			}},
		)
	}})
}
