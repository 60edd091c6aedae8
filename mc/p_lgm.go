package main

import (
	"fmt"
	"maps"
	"math"
	"slices"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// An action of a session: enabled alternatives are enumerated.
type action func(s *sess, w *world) []func()

func actStore(forms ...int) action {
	return func(s *sess, w *world) (out []func()) {
		for _, b := range w.enabled(s) {
			for i, f := range forms {
				if i > 0 && s.deviated { // one unusual way of storing per history
					break
				}
				if f == 5 && len(b) == 1 || f != 4 && f != 5 || len(b) > 1 {
					out = append(out, func() {
						s.deviated = s.deviated || i > 0
						s.store(b, f)
					})
				}
			}
		}
		return out
	}
}

func actAppend(s *sess, w *world) []func() { return []func(){s.append} }

func actSet(s *sess, w *world) (out []func()) {
	for _, op := range w.setsEnabled(s) {
		out = append(out, func() { s.set(op, false) })
	}
	return out
}

func actTestSet(s *sess, w *world) (out []func()) {
	for _, op := range w.setsEnabled(s) {
		out = append(out, func() { s.set(op, true) })
	}
	return out
}

func actSnapshot(s *sess, w *world) (out []func()) {
	for i, n := range s.m.snaps() {
		if n != nil {
			out = append(out, func() { s.snapshot(s.m.first + uint64(i)) })
		}
	}
	return out
}

func actTSnapshot(s *sess, w *world) (out []func()) {
	ts := s.m.times()
	for _, i := range []int{len(ts) / 2, len(ts) - 1} {
		if i >= 0 && i < len(ts) {
			out = append(out, func() { s.tsnapshot(ts[i]) })
		}
	}
	return out
}

func actTrack(s *sess, w *world) []func() {
	return []func(){func() { s.track(s.m.first, s.m.last()) }}
}

func actTTrack(s *sess, w *world) []func() {
	ts := s.m.times()
	if len(ts) == 0 {
		return nil
	}
	return []func(){func() { s.ttrack(ts[0], ts[len(ts)-1]) }}
}

// slicing, and changing the slice in every way
func actSlice(s *sess, w *world) (out []func()) {
	f, l := s.m.first, s.m.last()
	for _, r := range [][2]uint64{{f, l}, {f, f}, {l, l}, {f + (l-f)/2, l}} {
		out = append(out, func() { s.abuse(s.slice(r[0], r[1]), w) })
	}
	return out
}

func actTSlice(s *sess, w *world) (out []func()) {
	ts := s.m.times()
	if len(ts) == 0 {
		return nil
	}
	return []func(){func() {
		if t := s.tslice(ts[0], ts[len(ts)-1]); t != nil {
			s.abuse(t, w)
		}
	}}
}

func actHistory(s *sess, w *world) []func() {
	return []func(){func() { s.history(w.targets[0]) }, func() { s.history(w.targets[len(w.targets)-1]) }}
}

func actCompact(s *sess, w *world) (out []func()) {
	for _, t := range w.targets[:min(2, len(w.targets))] {
		out = append(out, func() { s.compact(t) })
	}
	return out
}

// abuse changes a slice, which must not show through.
func (s *sess) abuse(t *sess, w *world) {
	// The pending changes of the slice (none) must not share memory either
	for i := 0; i < 3; i++ {
		if e := w.enabled(t); len(e) > 0 {
			t.lg.Store(tsonpatch.Patch(slices.Clone(e[i%len(e)])))
			t.m.store(e[i%len(e)])
			if i != 1 {
				t.lg.Append()
				t.m.append()
				// what it keeps for itself must not be shared either
				if snaps := t.m.snaps(); snaps[len(snaps)-1] != nil {
					t.lg.Snapshot(t.m.last())
				}
			}
		}
	}
	if _, v := t.m.tsnap(math.MaxInt64); v == vOK {
		t.lg.TemporalSnapshot(math.MaxInt64)
	}
	t.lg.Compact("")
}

// drive runs depth actions.
func drive(s *sess, w *world, depth int, acts []action, after func()) {
	for d := 0; d < depth; d++ {
		var all []func()
		for _, a := range acts {
			all = append(all, a(s, w)...)
		}
		all[s.c.Choose(len(all))]()
		if after != nil {
			after()
		}
	}
	s.c.State(s.stateKey())
}

func pickWorld(c *Ctx, ws []world) *world {
	w := &ws[c.Choose(len(ws))]
	numericKeys = w.numeric
	return w
}

// lgmFamilies: every sequence of actions up to the depth, in each world; in
// descending map order one level less deep.
func lgmFamilies(name string, ws []world, forms []int, depth int, acts []action, after, final func(s *sess, w *world)) (out []Family) {
	for i := range ws {
		w := &ws[i]
		for _, desc := range []bool{false, true} {
			f := Family{Name: name + "/" + w.name, Depth: depth, Extra: 1, Body: func(c *Ctx) {
				numericKeys = w.numeric
				memoOn = true
				s := open(c, w.doc, forms[c.Choose(len(forms))])
				drive(s, w, c.Depth, acts, func() {
					if after != nil {
						after(s, w)
					}
				})
				if final != nil {
					final(s, w)
				}
			}}
			if desc {
				f.Name += "/desc"
				f.Desc = true
				f.Depth = max(1, depth-1)
				f.Extra = 0
			}
			out = append(out, f)
		}
	}
	return out
}

// scaleDoc builds a history of n versions in one of several shapes.
var scaleSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 25, 31, 32, 33, 40, 48, 50, 51, 63, 64, 65, 99, 100, 101,
	127, 128, 129, 130, 200, 201, 255, 256, 257}

// bigSizes come once every small size has been explored.
var bigSizes = []int{300, 400, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}

// size chooses the shape and size of something: all the small sizes of every
// shape first, then big ones up to most(shape).
func (c *Ctx) size(shapes int, most func(shape int) int) (shape, n int) {
	if !c.Bool() {
		return c.Choose(shapes), scaleSizes[c.Choose(len(scaleSizes))]
	}
	n, shape = bigSizes[c.Choose(len(bigSizes))], c.Choose(shapes)
	if most != nil && n > most(shape) {
		c.Prune()
	}
	return shape, n
}

const scaleShapes = 6

// scaleOps: the changes of version i (from 1) in a history of the shape.
func scaleOps(shape, n, i int) []Op {
	t := int64(10 * i)
	switch shape {
	case 0: // one path, alternating and repeated values
		return []Op{rpl("/a", float64(i/2), t)}
	case 1: // growing document
		return []Op{add(fmt.Sprintf("/k%d", i), float64(i), t), rpl("/a", float64(i%3), t+1)}
	case 2: // growing array, and every fifth version removes
		if i%5 == 0 {
			return []Op{rem("/l/0", t)}
		}
		return []Op{add(fmt.Sprintf("/l/%d", (i-1)-(i/5)*2), float64(i%2), t)}
	case 3: // equal timestamps, decreasing within a pair
		return []Op{rpl("/a", float64(i), int64(i/4*10)), rpl("/b/c", "v", int64(i/4*10))}
	case 4: // few different times, many changes of one path at each
		return []Op{rpl("/a", float64(i), int64(7-i%2)), rpl("/b/c", fmt.Sprint(i), int64(9-i%3))}
	default: // removed and set again
		if i%2 == 0 {
			return []Op{rem("/b/c", t)}
		}
		return []Op{add("/b/c", "v", t), rpl("/a", 7.0, t)}
	}
}

func scaleWorld() *world {
	numericKeys = false
	return &world{name: "scale", doc: obj("a", num(0, 1), "b", obj("c", str("v", 2)), "l", arr()),
		targets: []string{"", "/a", "/b"},
		batches: [][]Op{{rpl("/a", 99.0, 5000)}, {add("/n", true, 5001)}, {rpl("/b/c", "w", 5002)}}}
}

// scale builds long histories: versions in one direction, many changes in one
// version in the other.
func scaleFamily(name string, tier string, final func(s *sess, w *world, n int)) Family {
	return Family{Name: name, Limit: 1000000000, Weight: 8, Body: func(c *Ctx) {
		shape, n := c.size(scaleShapes, func(shape int) int { return []int{1025, 513, 513, 1025, 513, 513}[shape] })
		warm := c.Choose(4)
		wide := warm == 3
		if n > 257 && warm == 1 {
			c.Prune()
		}
		w := scaleWorld()
		s := open(c, w.doc, 0)
		s.held = nil
		for i := 1; i <= n; i++ {
			s.storeQuiet(scaleOps(shape, n, i))
			if !wide {
				s.appendQuiet()
			}
			if warm == 1 && i%7 == 0 && !wide {
				s.lg.Snapshot(s.m.last()) // some cached snapshots
			}
		}
		s.appendQuiet()
		if warm == 2 {
			s.lg.Snapshot(s.m.last())
			s.lg.Snapshot((s.m.first + s.m.last()) / 2)
		}
		c.Log("history of shape %d with %d stores, in one version: %v, snapshots taken: %d", shape, n, wide, warm)
		c.State(fmt.Sprint(shape, n, wide, warm))
		final(s, w, n)
	}}
}

func (s *sess) storeQuiet(ops []Op) {
	if s.m.store(ops) != vOK {
		panic("harness: scale history cannot be applied")
	}
	s.c.Step()
	s.lg.Store(tsonpatch.Patch(ops))
}

func (s *sess) appendQuiet() {
	s.c.Step()
	s.m.append()
	if err := s.lg.Append(); err != nil {
		s.c.Failf("Append fails: %v", err)
	}
}

// someVersions of a long history
func someVersions(m *model) []uint64 {
	var out []uint64
	for v := m.first; v <= m.last(); v++ {
		d, e := v-m.first, m.last()-v
		if d < 4 || e < 4 || d <= 260 && (d%16 <= 1 || d%10 == 0) || d > 260 && (d%128 == 0 || d%100 == 0) {
			out = append(out, v)
		}
	}
	return out
}

func someTimes(m *model) []int64 {
	ts := m.times()
	if len(ts) <= 60 {
		return ts
	}
	var out []int64
	for i, t := range ts {
		if i < 6 || i > len(ts)-7 || i%(len(ts)/40) == 0 {
			out = append(out, t)
		}
	}
	return out
}

func windows(ts []int64) [][2]int64 {
	var out [][2]int64
	for i := range ts {
		for j := i; j < len(ts); j++ {
			out = append(out, [2]int64{ts[i], ts[j]})
		}
	}
	return out
}

func init() {
	allWorlds := worlds()
	small := worldNamed("flat", "nested", "arrays")
	queries := []action{actSnapshot, actTSnapshot, actTrack, actTTrack, actSlice, actTSlice, actHistory}
	depth := func(tier string, q, t int) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
	lgmAssume := []string{
		"documents, paths, values and timestamps come from the alphabets in mc/worlds.go; histories are bounded by the stated depth or size",
		"stored changes can be applied to the current state when they are stored; array indices are written canonically",
		"one document is used by one caller at a time (C22 covers different documents at the same time)",
	}

	register(&Prop{ID: "C01", Assumptions: lgmAssume, Families: func(tier string) []Family {
		rec := func(s *sess, w *world) { s.recorded() }
		return families(
			lgmFamilies("store-append", allWorlds, []int{0, 1, 2}, depth(tier, 3, 4), []action{actStore(0, 1, 2, 3, 4, 5, 6), actAppend}, rec, rec),
			lgmFamilies("mixed", small, []int{0}, depth(tier, 3, 4), append([]action{actStore(0), actAppend, actSet, actTestSet}, queries...), rec, rec),
			lgmFamilies("deep", worldNamed("flat"), []int{0}, depth(tier, 6, 8), []action{actStore(6), actAppend, actSnapshot}, rec, rec),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				s.recorded()
				s.storeQuiet(w.batches[0])
				s.recorded()
				s.appendQuiet()
				s.appendQuiet()
				s.recorded()
				s.storeQuiet(w.batches[1])
				s.storeQuiet(w.batches[2])
				s.appendQuiet()
				s.recorded()
			}),
			initialPatches("initial-patches", allWorlds, rec),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), []action{actStore(0), actSet}, rec, func(s *sess, w *world) {
				s.append()
				s.recorded()
				if e := w.enabled(s); len(e) > 0 {
					s.store(e[len(e)-1], 0)
					s.append()
				}
				s.recorded()
			}),
		)
	}})

	register(&Prop{ID: "C02", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			s.append()
			down := s.c.Bool()
			s.allSnapshots(down)
			s.allSnapshots(!down)
		}
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 4, 6), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", small, []int{0}, depth(tier, 3, 4), append([]action{actStore(0), actAppend, actSet}, queries...), nil, final),
			lgmFamilies("snapshot-orders", worldNamed("flat"), []int{0}, depth(tier, 6, 7), []action{actStore(0), actAppend, actSnapshot}, nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				down := s.c.Bool()
				all := s.allSnapshots
				if n > 257 {
					all = func(down bool) {
						vs := someVersions(s.m)
						if down {
							slices.Reverse(vs)
						}
						for _, v := range vs {
							s.snapshot(v)
						}
					}
				}
				all(down)
				s.held = nil
				s.storeQuiet(w.batches[0])
				s.appendQuiet()
				all(!down)
			}),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), append([]action{actStore(0)}, queries...), nil, final),
		)
	}})

	register(&Prop{ID: "C03", Assumptions: lgmAssume, Families: func(tier string) []Family {
		ws := worldNamed("flat", "nested", "arrays", "unordered")
		return families(
			twinFamilies("queries", ws, depth(tier, 3, 4), append([]action{actStore(0, 6), actAppend}, queries...), 0),
			twinFamilies("worlds", allWorlds, depth(tier, 2, 3), append([]action{actStore(0, 3, 6), actAppend, actSet, actTestSet}, queries...), 0),
			twinFamilies("slices-later", small, depth(tier, 3, 4), []action{actStore(0), actAppend, actSet, actCompact}, 1),
			initialPatches("initial-patches", allWorlds, func(s *sess, w *world) { s.checkHeld() }),
			twinFamilies("buffers", small, depth(tier, 3, 4), append([]action{actStore(0, 1, 3, 4, 6), actAppend}, actLookup), 2),
			sliceTwins("of-slices", worldNamed("flat", "unordered"), depth(tier, 1, 3), queries),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				if n > 129 {
					s.c.Prune()
				}
				s.askEverything(w)
			}),
		)
	}})

	register(&Prop{ID: "C04", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			ts := append([]int64{math.MinInt64}, s.m.times()...)
			ts = append(ts, math.MaxInt64)
			if s.c.Bool() {
				slices.Reverse(ts)
			}
			s.allTemporal(ts)
		}
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 4, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("unordered", worldNamed("unordered", "times"), []int{0}, depth(tier, 5, 6), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", worldNamed("flat", "unordered"), []int{0}, depth(tier, 3, 4), append([]action{actStore(0), actAppend, actSet}, queries...), nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) { s.allTemporal(someTimes(s.m)) }),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), []action{actNothing, actStore(0)}, nil, final),
		)
	}})

	register(&Prop{ID: "C05", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) { s.allTracks() }
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 4, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", small, []int{0}, depth(tier, 3, 4), append([]action{actStore(0), actAppend, actSet}, queries...), nil, final),
			lgmFamilies("removals", worldNamed("flat", "arrays", "nested"), []int{0}, depth(tier, 5, 6), []action{actStore(0), actAppend}, nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				vs := someVersions(s.m)
				for i, vi := range vs {
					for j := i; j < len(vs); j++ {
						if i < 2 || n <= 257 && j-i < 2 || j == len(vs)-1 {
							s.track(vi, vs[j])
							s.held = nil
						}
					}
				}
			}),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), []action{actNothing, actStore(0)}, nil, func(s *sess, w *world) {
				s.append()
				final(s, w)
			}),
		)
	}})

	register(&Prop{ID: "C06", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			s.allTTracks(append(append([]int64{math.MinInt64}, s.m.times()...), math.MaxInt64))
		}
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 4, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("unordered", worldNamed("unordered", "times"), []int{0}, depth(tier, 5, 6), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", small, []int{0}, depth(tier, 3, 4), append([]action{actStore(0), actAppend, actSet}, queries...), nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				ts := someTimes(s.m)
				for i := 0; i < len(ts); i += 1 + len(ts)/12 {
					for j := i; j < len(ts); j += 1 + len(ts)/12 {
						s.ttrack(ts[i], ts[j])
						s.held = nil
					}
				}
				s.ttrack(math.MinInt64, math.MaxInt64)
			}),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), []action{actNothing, actStore(0)}, nil, func(s *sess, w *world) {
				s.append()
				final(s, w)
			}),
		)
	}})

	register(&Prop{ID: "C07", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			s.append()
			for vi := s.m.first; vi <= s.m.last(); vi++ {
				for vj := vi; vj <= s.m.last(); vj++ {
					s.checkSlice(vi, vj, w)
				}
			}
			s.recorded()
		}
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 4, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", small, []int{0}, depth(tier, 3, 4), []action{actStore(0), actAppend, actSnapshot, actTSnapshot, actCompact}, nil, final),
			lgmFamilies("deep", worldNamed("flat"), []int{0}, depth(tier, 5, 6), []action{actStore(0), actAppend, actSnapshot}, nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				vs := someVersions(s.m)
				for i := 0; i < len(vs); i += 1 + len(vs)/5 {
					for j := i; j < len(vs); j += 1 + len(vs)/5 {
						s.checkSlice(vs[i], vs[j], w)
						s.held = nil
					}
				}
			}),
			livingTogether("together", depth(tier, 2, 4), false),
		)
	}})

	register(&Prop{ID: "C08", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			ts := s.m.times()
			if len(ts) > 7 {
				ts = append(append([]int64{}, ts[:4]...), ts[len(ts)-3:]...)
			}
			ts = append(append([]int64{math.MinInt64}, ts...), math.MaxInt64)
			wins := windows(ts)
			for i, win := range wins {
				s.checkTSlice(win[0], win[1], w, i%7 == len(s.m.vers)%7)
			}
			s.recorded()
			// and of what a slice keeps
			snaps := s.m.snaps()
			vi := s.m.first + uint64(len(snaps)/2)
			if vi == s.m.first || snaps[vi-s.m.first] == nil || snaps[len(snaps)-1] == nil {
				return
			}
			t := s.slice(vi, s.m.last())
			for i := len(s.m.vers) % 3; i < len(wins); i += 1 + len(wins)/4 {
				t.checkTSlice(wins[i][0], wins[i][1], w, false)
			}
			t.checkTSlice(math.MinInt64, math.MaxInt64, w, true)
		}
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 3, 4), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("unordered", worldNamed("unordered", "flat"), []int{0}, depth(tier, 3, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("queries", small, []int{0}, depth(tier, 3, 4), []action{actStore(0), actAppend, actSnapshot, actTSnapshot, actSlice, actTSlice}, nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				ts := someTimes(s.m)
				for i := 0; i < len(ts); i += 1 + len(ts)/4 {
					for j := i; j < len(ts); j += 1 + len(ts)/4 {
						if n > 257 && i > 0 && j < len(ts)-1-len(ts)/4 {
							continue
						}
						s.checkTSlice(ts[i], ts[j], w, j == i || i == 0)
						s.held = nil
					}
				}
			}),
			livingTogether("together", depth(tier, 2, 4), true),
		)
	}})

	register(&Prop{ID: "C09", Assumptions: lgmAssume, Families: func(tier string) []Family {
		after := func(s *sess, w *world) { s.current(); s.recorded() }
		return families(
			lgmFamilies("sets", allWorlds, []int{0}, depth(tier, 4, 5), []action{actStore(0), actSet, actTestSet, actAppend}, after, after),
			lgmFamilies("mixed", small, []int{0, 1}, depth(tier, 3, 4), append([]action{actStore(0, 2, 5), actAppend, actSet, actTestSet, actCompact}, queries...), after, after),
			testSetValues("values"),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				s.current()
				s.set(rpl("/a", 12345.0, 6000), true)
				s.set(rpl("/a", 12345, 6001), true)
				s.current()
				s.recorded()
				s.appendQuiet()
				s.current()
			}),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), []action{actStore(0), actSet, actTestSet}, after, func(s *sess, w *world) {
				s.append()
				after(s, w)
			}),
		)
	}})

	register(&Prop{ID: "C10", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			if s.m.pool == nil || s.c.Bool() {
				s.append()
			}
			in := s.m.inOrder()
			times := s.m.times()
			before := s.m.clone()
			target := w.targets[s.c.Choose(len(w.targets))]
			s.compact(target)
			s.recorded()
			s.allSnapshots(false)
			again := mapStr(s.lg.Patches)
			s.lg.Compact(target)
			if now := mapStr(s.lg.Patches); now != again {
				s.c.Failf("Compact(%q) again changes %s\n to %s", target, again, now)
			}
			if !in {
				return
			}
			for _, tm := range times {
				want, v := before.tsnap(tm)
				if v != vOK {
					continue
				}
				if got := fromT(s.lg.TemporalSnapshot(tm)); !eqn(got, want, false) {
					s.c.Failf("after Compact(%q) TemporalSnapshot(%d) has the values of\n  %v, before\n  %v\n  of %s", target, tm, got, want, versStr(before))
				}
			}
		}
		return families(
			lgmFamilies("histories", allWorlds, []int{0}, depth(tier, 4, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("prefixes", worldNamed("prefixes", "arrays", "flat"), []int{0}, depth(tier, 4, 6), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("mixed", small, []int{0}, depth(tier, 3, 4), []action{actStore(0), actAppend, actSnapshot, actCompact, actSet}, nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				s.compact(w.targets[s.c.Choose(len(w.targets))])
				s.recorded()
				s.allSnapshots(false)
			}),
			ofSlices("of-slices", worldNamed("flat", "unordered", "arrays"), depth(tier, 2, 3), []action{actNothing, actStore(0)}, nil, func(s *sess, w *world) {
				s.append()
				s.compact(w.targets[s.c.Choose(min(3, len(w.targets)))])
				s.recorded()
				s.allSnapshots(false)
			}),
		)
	}})

	register(&Prop{ID: "C11", Assumptions: lgmAssume, Families: func(tier string) []Family {
		final := func(s *sess, w *world) {
			for _, t := range w.targets {
				s.history(t)
			}
			s.recorded()
			// and of slices
			s.append()
			snaps := s.m.snaps()
			vi := s.m.first + uint64(s.c.Choose(len(snaps)))
			if t := s.slice(vi, s.m.last()); snaps[vi-s.m.first] != nil {
				t.sliceHistory(w)
				if vi < s.m.last() {
					t.slice(vi+1, s.m.last()).sliceHistory(w)
				}
			}
			if ts := s.m.times(); len(ts) > 0 {
				if t := s.tslice(ts[len(ts)/2], ts[len(ts)-1]); t != nil {
					t.sliceHistory(w)
				}
			}
		}
		var ws []world
		for _, w := range allWorlds { // one spelling per path
			for i, b := range w.batches {
				b = slices.Clone(b)
				for j := range b {
					b[j].Path = pointer(splitPath(b[j].Path))
				}
				w.batches[i] = b
			}
			ws = append(ws, w)
		}
		return families(
			lgmFamilies("histories", ws, []int{0}, depth(tier, 4, 5), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("prefixes", worldNamed("prefixes"), []int{0}, depth(tier, 4, 6), []action{actStore(0), actAppend}, nil, final),
			lgmFamilies("mixed", worldNamed("flat", "prefixes"), []int{0}, depth(tier, 3, 4), append([]action{actStore(0), actAppend, actSet, actCompact}, queries...), nil, final),
			scaleFamily("scale", tier, func(s *sess, w *world, n int) {
				for _, t := range w.targets {
					s.history(t)
				}
				vs := someVersions(s.m)
				u := s.slice(vs[len(vs)/2], s.m.last())
				for _, t := range w.targets {
					u.history(t)
				}
			}),
		)
	}})
}

// sliceHistory: the first document of a slice has the initial values.
func (t *sess) sliceHistory(w *world) {
	for _, p := range w.targets {
		t.history(p)
	}
	if e := w.enabled(t); len(e) > 0 {
		t.store(e[0], 0)
		t.append()
		for _, p := range w.targets {
			t.history(p)
		}
	}
}

// initialPatches gives the patches to NewLogument.
func initialPatches(name string, ws []world, check func(s *sess, w *world)) Family {
	return Family{Name: name, Orders: 2, Body: func(c *Ctx) {
		w := pickWorld(c, ws)
		s := &sess{c: c, m: newModel(w.doc)}
		e := w.enabled(s)
		b := e[c.Choose(len(e))]
		s.m.store(b)
		var in any
		switch c.Choose(5) {
		case 0:
			in = tsonpatch.Patch(slices.Clone(b))
		case 1:
			in = string(opsJSON(b))
		case 2:
			in = opsJSON(b)
		case 3:
			ps := []tsonpatch.Patch{append(make(tsonpatch.Patch, 0, 5), b[:1]...), append(make(tsonpatch.Patch, 0, 5), b[1:]...)}
			s.holding = true
			s.hold("the initial patches of the caller", func() string { return opsStr(ps[0][:5]) + opsStr(ps[1][:5]) })
			s.holding = false
			in = ps
		case 4:
			in = append([]tsonpatch.Operation{}, b...)
		}
		c.Log("create %v with %s as %T", w.doc, lops(b), in)
		c.Step()
		s.lg = logument.NewLogument(w.doc.toT(), in)
		check(s, w)
		s.current()
		drive(s, w, 2, []action{actStore(0), actAppend}, func() { check(s, w); s.current() })
		s.append()
		check(s, w)
		s.checkHeld()
		s.allSnapshots(true)
	}}
}

// testSetValues: every pair of old and new values.
func testSetValues(name string) Family {
	olds := []*N{num(0, 5), num(1, 5), num(1.5, 5), num(-2, 5), str("", 5), str("1", 5), str("true", 5), str("x", 5), boo(true, 5), boo(false, 5),
		null, obj(), arr(), obj("value", num(1, 1)), arr(num(1, 1)), num(1e300, 5), num(0.1, 5), num(9007199254740993, 5),
		str("X", 5), str("x ", 5), str("e\u0301", 5), num(float64(float32(0.1)), 5), num(1+1e-9, 5), num(16777217, 5)}
	news := []any{0, 0.0, 1, 1.0, 1.5, -2, "", "1", "true", "x", true, false, 1e300, 0.1, 0.2, 9007199254740992, nil, map[string]any{}, []any{1.0},
		"X", " x", "\u00e9", float64(float32(0.1)), 1 - 1e-9, 16777216, 16777217}
	return Family{Name: name, Orders: 2, Body: func(c *Ctx) {
		old := olds[c.Choose(len(olds))]
		v := news[c.Choose(len(news))]
		ts := []int64{5, 6, 4, 0, -1}[c.Choose(5)]
		path := []string{"/k", "k", "/o/k", "/l/0", "/missing", "/o/missing/deep", "/", "/o/", "/o//k", "/l/1", "/~1k", "/k "}[c.Choose(12)]
		test := c.Bool()
		kind := tsonpatch.OpType([]string{"replace", "add", "remove"}[c.Choose(3)])
		doc := obj("k", old, "o", obj("k", old), "l", arr(old), "other", num(1, 1))
		s := open(c, doc, 0)
		numericKeys = false
		op := Op{Op: kind, Path: path, Value: v, Timestamp: ts}
		s.set(op, test)
		s.current()
		s.recorded()
		s.set(op, test) // once more: now equal
		s.current()
		s.recorded()
		s.checkHeld()
		c.State(fmt.Sprint(old, v, ts, path, test, kind))
	}}
}

func actLookup(s *sess, w *world) (out []func()) {
	return []func(){func() {
		for _, t := range w.targets {
			lookup(s, t)
		}
	}}
}

// checkSlice: the slice answers as the original, and is a document of its own.
func (s *sess) checkSlice(vi, vj uint64, w *world) {
	t := s.slice(vi, vj)
	t.current()
	if len(t.lg.PatchPool) != 0 {
		s.c.Failf("%shas pending changes %s", t.note, opsStr(t.lg.PatchPool))
	}
	t.sliceBody(w)
	for vi2 := t.m.first; vi2 <= t.m.last(); vi2++ { // once more
		if t.m.last()-vi2 < 3 {
			u := t.slice(vi2, t.m.last())
			u.current()
			u.allSnapshots(false)
		}
	}
	t.grow(w)
}

func (t *sess) sliceBody(w *world) {
	m := t.m
	if len(t.lg.Version) != len(m.vers)+1 {
		t.c.Failf("%sthe versions are %v, not %d..%d", t.note, t.lg.Version, m.first, m.last())
	}
	t.recorded()
	t.allSnapshots(t.c.orderMode == 1)
	if m.last()-m.first < 12 {
		for vi := m.first + 1; vi <= m.last(); vi++ {
			t.track(vi, m.last())
		}
		ts := m.times()
		for i := 0; i < len(ts); i += 1 + len(ts)/4 {
			t.ttrack(ts[i], ts[len(ts)-1])
			t.tsnapshot(ts[i])
		}
		t.history("")
		if n := len(ts); n > 0 { // and temporal slices of it
			for _, win := range [][2]int64{{ts[0], ts[n-1]}, {ts[n/2], ts[n-1]}, {ts[0], ts[n/2]}} {
				if u := t.tslice(win[0], win[1]); u != nil {
					u.note = t.note + u.note
					u.current()
					u.recorded()
				}
			}
		}
	}
	t.held = nil
}

// grow appends to a slice.
func (t *sess) grow(w *world) {
	e := w.enabled(t)
	if len(e) == 0 {
		return
	}
	t.store(e[0], 0)
	t.current()
	t.append()
	t.recorded()
	if !t.m.loose {
		t.allSnapshots(true)
	}
	t.checkHeld()
	t.held = nil
}

func (s *sess) checkTSlice(ti, tj int64, w *world, deep bool) {
	t := s.tslice(ti, tj)
	if t == nil {
		return
	}
	t.current()
	if len(t.lg.PatchPool) != 0 {
		s.c.Failf("%shas pending changes %s", t.note, opsStr(t.lg.PatchPool))
	}
	t.recorded()
	for _, tm := range append(someTimes(t.m), ti, tj) {
		if tm < ti || tm > tj {
			continue
		}
		want, v := s.m.tsnap(tm)
		if v != vOK {
			continue
		}
		s.c.Step()
		if got := fromT(t.lg.TemporalSnapshot(tm)); !eq(got, want) {
			s.c.Failf("%sTemporalSnapshot(%d) is\n  %v, of the original\n  %v\n  of %s", t.note, tm, got, want, versStr(s.m))
		}
	}
	snaps := t.m.snaps()
	for _, v := range someVersions(t.m) {
		if snaps[v-t.m.first] != nil {
			t.snapshot(v)
		}
	}
	if !deep {
		return
	}
	if t.m.last()-t.m.first < 12 {
		t.track(t.m.first, t.m.last())
		t.ttrack(ti, tj)
		t.history("")
		if tj > ti {
			if u := t.tslice(ti, ti+int64(uint64(tj-ti)/2)); u != nil {
				u.recorded()
				u.current()
			}
		}
		if snaps[len(snaps)-1] != nil {
			u := t.slice(t.m.first, t.m.last())
			u.recorded()
			u.allSnapshots(false)
		}
	}
	t.held = nil
	t.grow(w)
}

// twinFamilies: a document on which queries are made and a twin without them
// have to answer alike.
func twinFamilies(name string, ws []world, depth int, acts []action, mode int) (out []Family) {
	for i := range ws {
		out = append(out, twinFamily(name+"/"+ws[i].name, &ws[i], depth, acts, mode))
	}
	return out
}

func twinFamily(name string, w *world, depth int, acts []action, mode int) Family {
	return Family{Name: name, Depth: depth, Extra: 1, Body: func(c *Ctx) {
		numericKeys = w.numeric
		memoOn = true
		s := openHolding(c, w.doc, []int{0, 0, 2}[mode], true)
		var slice *sess
		was := ""
		at := 0
		if mode == 1 {
			at = 1 + c.Choose(c.Depth)
		}
		var sliceTimes []int64
		n := 0
		drive(s, w, c.Depth, acts, func() {
			s.checkHeld()
			if n++; n == at {
				s.append()
				if c.Bool() {
					ts := s.m.times()
					if len(ts) > 0 {
						slice = s.tslice(ts[0], ts[len(ts)-1])
					}
				} else {
					slice = s.slice((s.m.first+s.m.last())/2, s.m.last())
				}
				if slice != nil {
					sliceTimes = s.m.times()
					if len(sliceTimes) > 4 {
						sliceTimes = sliceTimes[:4]
					}
					was = fp(slice.lg, sliceTimes, w.targets)
				}
			}
		})
		s.checkHeld()
		if s.compacted { // a twin cannot be built: earlier states keep their times
			if slice != nil {
				if now := fp(slice.lg, sliceTimes, w.targets); now != was {
					c.Failf("later operations show through in a slice:%s", diffLines(was, now))
				}
			}
			return
		}
		twin := rebuild(s)
		times := s.m.times()
		if len(times) > 5 {
			times = append(times[:3:3], times[len(times)-2:]...)
		}
		b := fp(twin, times, w.targets)
		a := fp(s.lg, times, w.targets)
		if a != b {
			c.Failf("the document answers differently after the queries:%s\n  of %s", diffLines(a, b), versStr(s.m))
		}
		a2 := fp(s.lg, times, w.targets)
		if a2 != a {
			c.Failf("the document answers differently when asked again:%s\n  of %s", diffLines(a, a2), versStr(s.m))
		}
		if slice != nil {
			if now := fp(slice.lg, sliceTimes, w.targets); now != was {
				c.Failf("later operations show through in a slice:%s", diffLines(was, now))
			}
		}
		s.checkHeld()
	}}
}

// rebuild makes a document with the same recorded and pending changes, on
// which no query was ever made.
func rebuild(s *sess) *logument.Logument {
	lg := logument.NewLogument(s.m.snap0.toT(), nil)
	for _, ops := range s.m.vers {
		lg.Store(tsonpatch.Patch(slices.Clone(ops)))
		lg.Append()
	}
	if s.m.pool != nil {
		lg.Store(tsonpatch.Patch(slices.Clone(s.m.pool)))
	}
	lg.CurrentState = s.m.cur.toT()
	return lg
}

func lookup(s *sess, path string) {
	s.c.Step()
	s.c.Log("GetValue(%q)", path)
	want, ok, gray := s.m.cur.get(splitPath(path))
	if gray {
		return
	}
	got, err := getValue(s.lg.CurrentState, path)
	if (err == nil) != ok || ok && !eq(fromT(got), want) {
		s.c.Failf("GetValue(%q) gives %v %v, not %v", path, fromT(got), err, want)
	}
}

// askEverything makes each kind of query in turn, and compares the answers
// with those of a document which was never asked.
func (s *sess) askEverything(w *world) {
	s.holding = true
	vs, ts := someVersions(s.m), someTimes(s.m)
	some := func(n int) []int {
		return []int{0, n / 2, n - 1}
	}
	for _, p := range w.targets {
		s.history(p)
	}
	for _, i := range some(len(vs)) {
		s.snapshot(vs[i])
		s.track(vs[i], vs[len(vs)-1])
		s.slice(vs[0], vs[i])
	}
	for _, i := range some(len(ts)) {
		s.tsnapshot(ts[i])
		s.ttrack(ts[0], ts[i])
		s.tslice(ts[i], ts[len(ts)-1])
	}
	s.recorded()
	s.storeQuiet(w.batches[0])
	s.appendQuiet()
	s.checkHeld()
	var a, b string
	answers := func(lg *logument.Logument) string {
		var b strings.Builder
		for _, i := range some(len(vs)) {
			fmt.Fprintf(&b, "Snapshot(%d) = %v\n", vs[i], fromT(lg.Snapshot(vs[i])))
		}
		for _, i := range some(len(ts)) {
			fmt.Fprintf(&b, "TemporalSnapshot(%d) = %v\n", ts[i], fromT(lg.TemporalSnapshot(ts[i])))
		}
		fmt.Fprintf(&b, "patches = %s\ncurrent = %v\n", mapStr(lg.Patches), fromT(lg.CurrentState))
		for _, p := range w.targets {
			h := lg.History(p)
			for _, k := range slices.Sorted(maps.Keys(h)) {
				fmt.Fprintf(&b, "History(%q)[%s] = %s\n", p, k, opsStr(h[k]))
			}
		}
		return b.String()
	}
	a, b = answers(s.lg), answers(rebuild(s))
	if a != b {
		s.c.Failf("the document answers differently after the queries:%s", diffLines(a, b))
	}
	s.checkHeld()
}
