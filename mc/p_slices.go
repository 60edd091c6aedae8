package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// Slices are documents as well: what holds of a document has to hold of its
// slices, and a document and its slices must not share what changes.

// ranges are the version ranges of a document, short of most.
func (s *sess) ranges() (out [][2]uint64) {
	snaps := s.m.snaps()
	for vi := s.m.first; vi <= s.m.last(); vi++ {
		for vj := vi; vj <= s.m.last(); vj++ {
			if snaps[vi-s.m.first] != nil && snaps[vj-s.m.first] != nil {
				out = append(out, [2]uint64{vi, vj})
			}
		}
	}
	return out
}

// someWindows of the times of a document.
func (s *sess) someWindows() [][2]int64 {
	ts := s.m.times()
	if len(ts) > 6 {
		ts = append(append([]int64{}, ts[:3]...), ts[len(ts)-3:]...)
	}
	if len(ts) == 0 {
		return nil
	}
	return append(windows(ts), [2]int64{math.MinInt64, math.MaxInt64})
}

// anySlice takes one of the slices of a document, or a slice of a slice.
func (s *sess) anySlice(deep bool) *sess {
	var t *sess
	ranges, wins := s.ranges(), s.someWindows()
	if n := s.c.Choose(len(ranges) + len(wins)); n < len(ranges) {
		t = s.slice(ranges[n][0], ranges[n][1])
	} else {
		win := wins[n-len(ranges)]
		t = s.tslice(win[0], win[1])
	}
	if t == nil { // cannot be applied in this order
		s.c.Prune()
	}
	if deep && s.c.Bool() {
		u := t.anySlice(false)
		u.note = t.note + u.note
		return u
	}
	return t
}

// ofSlices checks a property on every slice of every history.
func ofSlices(name string, ws []world, depth int, acts []action, after, final func(s *sess, w *world)) (out []Family) {
	for i := range ws {
		w := &ws[i]
		out = append(out, Family{Name: name + "/" + w.name, Depth: depth, Extra: 1, Body: func(c *Ctx) {
			numericKeys = w.numeric
			memoOn = true
			s := open(c, w.doc, 0)
			drive(s, w, c.Depth, []action{actVersion}, nil)
			s.append()
			t := s.anySlice(c.Depth <= 1)
			drive(t, w, 1, acts, func() {
				if after != nil {
					after(t, w)
				}
			})
			final(t, w)
		}})
	}
	return out
}

// actVersion adds a version.
func actVersion(s *sess, w *world) (out []func()) {
	for _, b := range w.enabled(s) {
		out = append(out, func() {
			s.store(b, 0)
			s.append()
		})
	}
	return out
}

func actNothing(s *sess, w *world) []func() { return []func(){func() {}} }

// grown makes a document of which a version holds n changes, made in one of
// several ways, so that what keeps them has more or less room at its end.
func grown(c *Ctx, w *world) *sess {
	n := []int{1, 3, 5}[c.Choose(3)]
	how := c.Choose(3)
	s := open(c, w.doc, 0)
	for v := 0; v < 2; v++ {
		var all []Op
		for i := 0; i < n; i++ {
			op := rpl([]string{"/a", "/b/c"}[i%2], float64(100*v+i+1), int64(10+100*v+i))
			switch how {
			case 0:
				s.set(op, false)
			case 1:
				s.store([]Op{op}, 0)
			case 2:
				s.set(op, true)
			default:
				all = append(all, op)
			}
		}
		if all != nil {
			s.store(all, []int{0, 4}[c.Choose(2)])
		}
		s.append()
	}
	return s
}

// livingTogether: a document, its slices and slices of them are changed in turn;
// each one has to stay the document it is.
func livingTogether(name string, depth int, temporal bool) []Family {
	w := &world{name: "together", doc: obj("a", num(0, 1), "b", obj("c", str("v", 2))), targets: []string{"", "/a", "/b"}}
	f := Family{Name: name, Depth: depth, Extra: 1, Body: func(c *Ctx) {
		numericKeys = false
		memoOn = false
		docs := []*sess{grown(c, w)}
		take := func(s *sess, i int) *sess {
			first, last := s.m.first, s.m.last()
			if temporal {
				win := [][2]int64{{math.MinInt64, math.MaxInt64}, {0, 110}, {11, 1000}, {110, 110}}[i%4]
				return s.tslice(win[0], win[1])
			}
			r := [][2]uint64{{first, last}, {min(first+1, last), last}, {last, last}, {first, max(first+1, last) - 1}}[i%4]
			return s.slice(r[0], r[1])
		}
		if t := take(docs[0], c.Choose(4)); t != nil {
			docs = append(docs, t)
		}
		if c.Bool() {
			if t := take(docs[len(docs)-1], c.Choose(2)); t != nil {
				docs = append(docs, t)
			}
		}
		all := func(f func(s *sess)) {
			for i, s := range docs {
				if s.m.loose {
					s.note = fmt.Sprintf("document %d, a temporal slice: ", i)
				} else {
					s.note = fmt.Sprintf("document %d: ", i)
				}
				f(s)
			}
		}
		check := func(s *sess) {
			s.recorded()
			s.current()
		}
		all(check)
		for i := 0; i < c.Depth; i++ {
			k := c.Choose(len(docs))
			s := docs[k]
			value := float64(1000*(k+1) + i)
			time := int64(300 + 10*i + k)
			c.Log("of document %d:", k)
			switch c.Choose(5) {
			case 0:
				s.set(rpl("/a", value, time), false)
			case 1:
				s.store([]Op{rpl("/a", value, time)}, 0)
			case 2:
				s.append()
			case 3:
				s.compact("")
			case 4:
				s.history("")
			}
			all(check)
		}
		all(func(s *sess) {
			s.append()
			s.recorded()
			s.allSnapshots(false)
		})
		all(check)
	}}
	return []Family{f}
}

// sliceTwins: a slice on which queries are made and another one of the same
// range without them have to answer alike.
func sliceTwins(name string, ws []world, depth int, queries []action) (out []Family) {
	for i := range ws {
		w := &ws[i]
		out = append(out, Family{Name: name + "/" + w.name, Depth: depth, Extra: 1, Body: func(c *Ctx) {
			numericKeys = w.numeric
			memoOn = true
			s := open(c, w.doc, 0)
			drive(s, w, c.Depth, []action{actVersion}, nil)
			s.append()
			wins, ranges := s.someWindows(), s.ranges()
			var twin *logument.Logument
			var t *sess
			if n := c.Choose(len(ranges) + len(wins)); n < len(ranges) {
				r := ranges[n]
				t = s.slice(r[0], r[1])
				twin = s.lg.Slice(r[0], r[1])
			} else {
				win := wins[n-len(ranges)]
				if t = s.tslice(win[0], win[1]); t == nil {
					c.Prune()
				}
				twin = s.lg.TemporalSlice(win[0], win[1])
			}
			t.holding = true
			drive(t, w, 1, queries, t.checkHeld)
			t.append() // time-based queries may have done so
			if e := w.enabled(t); len(e) > 0 {
				t.store(e[0], 0)
				twin.Store(tsonpatch.Patch(slices.Clone(e[0])))
				if c.Bool() {
					t.append()
					twin.Append()
				}
				drive(t, w, 1, queries, t.checkHeld)
			}
			t.append()
			twin.Append()
			times := t.m.times()
			if len(times) > 5 {
				times = append(times[:3:3], times[len(times)-2:]...)
			}
			a, b := fp(t.lg, times, w.targets), fp(twin, times, w.targets)
			if a != b {
				c.Failf("%sthe slice answers differently after the queries:%s\n  of %s", t.note, diffLines(a, b), versStr(t.m))
			}
		}})
	}
	return out
}
