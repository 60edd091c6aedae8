package main

import (
	"cmp"
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzrt"
)

type stepLimit = zzrt.StepLimit

// model is the reference of a Logument: the first document, the recorded
// changes of every later version, and the pending changes.
type model struct {
	first   uint64
	snap0   *N
	vers    [][]Op // vers[i] are the changes of version first+1+i
	pool    []Op
	cur     *N
	atFirst []Op // changes a slice may also hold at its first version
	snapsC  []*N
	tsC     *tsCache
	loose   bool // the recorded order does not determine cur (temporal slice)
}

func newModel(doc *N) *model { return &model{snap0: doc, cur: doc} }

func (m *model) last() uint64 { return m.first + uint64(len(m.vers)) }

func (m *model) clone() *model {
	c := *m
	c.vers = slices.Clone(m.vers)
	c.pool = slices.Clone(m.pool)
	c.dirty()
	return &c
}

func (m *model) store(ops []Op) verdict {
	n, v := refPatch(m.cur, ops)
	if v == vOK {
		m.cur = n
		m.pool = append(slices.Clip(m.pool), ops...)
		m.tsC = nil
	}
	return v
}

func (m *model) append() {
	if len(m.pool) > 0 {
		m.vers = append(slices.Clip(m.vers), m.pool)
		m.pool = nil
	}
}

// dirty forgets derived data after a change of what is recorded.
func (m *model) dirty() { m.snapsC, m.tsC = nil, nil }

// snaps returns the state at every version.
func (m *model) snaps() []*N {
	if m.snapsC == nil {
		m.snapsC = []*N{m.snap0}
	}
	for i := len(m.snapsC) - 1; i < len(m.vers); i++ {
		n := m.snapsC[i]
		if n != nil {
			var v verdict
			if n, v = refPatch(n, m.vers[i]); v != vOK {
				n = nil
			}
		}
		m.snapsC = append(m.snapsC, n)
	}
	return m.snapsC
}

func (m *model) all() []Op {
	var out []Op
	for _, ops := range m.vers {
		out = append(out, ops...)
	}
	return out
}

type tsCache struct {
	ops    []Op
	states []*N
	v      verdict // of the operation after the last state
}

// tsnap is the state at time t, pending changes included: the changes in
// order of time, those of equal time in the order they were recorded.
func (m *model) tsnap(t int64) (*N, verdict) {
	if m.tsC == nil {
		m.tsC = &tsCache{ops: append(m.all(), m.pool...), states: []*N{m.snap0}}
		slices.SortStableFunc(m.tsC.ops, func(a, b Op) int { return cmp.Compare(a.Timestamp, b.Timestamp) })
	}
	c := m.tsC
	n := sort.Search(len(c.ops), func(i int) bool { return c.ops[i].Timestamp > t })
	for len(c.states) <= n && c.v == vOK {
		var s *N
		if s, c.v = memoOp(c.states[len(c.states)-1], c.ops[len(c.states)-1]); c.v == vOK {
			c.states = append(c.states, s)
		}
	}
	if n < len(c.states) {
		return c.states[n], vOK
	}
	return nil, c.v
}

// times are the interesting times of the document: every timestamp and the
// ones next to it.
func (m *model) times() []int64 {
	set := map[int64]bool{}
	for _, op := range append(m.all(), m.pool...) {
		t := op.Timestamp
		set[t] = true
		if t > math.MinInt64 {
			set[t-1] = true
		}
		if t < math.MaxInt64 {
			set[t+1] = true
		}
	}
	var out []int64
	for t := range set {
		out = append(out, t)
	}
	slices.Sort(out)
	return out
}

func (m *model) inOrder() bool {
	ops := append(m.all(), m.pool...)
	return sort.SliceIsSorted(ops, func(i, j int) bool { return ops[i].Timestamp < ops[j].Timestamp })
}

// A reported list must be a subsequence of the recorded one. Whether a change
// has to be reported, must be left out, or may be either:
type must byte

const (
	keep must = iota
	omit
	either
)

func isPrefix(pre, p []string) bool {
	return len(pre) <= len(p) && slices.Equal(pre, p[:len(pre)])
}

// numericKeys: the documents have objects with numeric keys, so a path alone
// does not tell whether it goes through an array.
var numericKeys bool

// classify decides for each change of one history.
func classify(ops []Op) []must {
	out := make([]must, len(ops))
	parts := make([][]string, len(ops))
	lastOf := map[string]int{}
	for i, op := range ops {
		parts[i] = splitPath(op.Path)
		if op.Op == "remove" {
			continue
		}
		key := pointer(parts[i])
		j, seen := lastOf[key]
		lastOf[key] = i
		if !seen || !sameValue(ops[j].Value, op.Value) {
			continue
		}
		out[i] = omit
		for r := j + 1; r < i && out[i] != keep; r++ {
			if ops[r].Op != "remove" {
				// overwriting a parent or building below also ends the value
				if len(parts[r]) != len(parts[i]) && (isPrefix(parts[r], parts[i]) || isPrefix(parts[i], parts[r])) {
					out[i] = either
				}
				continue
			}
			rp := parts[r]
			if isPrefix(rp, parts[i]) {
				out[i] = keep
				continue
			}
			if len(rp) == 0 {
				continue
			}
			up := rp[:len(rp)-1]
			if ri, ok := index(rp[len(rp)-1]); ok && len(parts[i]) > len(up) && isPrefix(up, parts[i]) {
				// elements after a removed array element have moved
				if pi, ok := index(parts[i][len(up)]); ok && pi > ri && !numericKeys {
					out[i] = keep
				} else {
					out[i] = either
				}
			} else if oddIndex(rp[len(rp)-1]) && isPrefix(up, parts[i]) {
				out[i] = either
			}
			if isPrefix(parts[i], rp) {
				out[i] = either
			}
		}
	}
	return out
}

// explain checks that got is ops without the changes to omit; "" if so.
func explain(ops []Op, class []must, got []Op) string {
	// reach[k]: the first i ops can account for the first k reported
	reach := map[int]bool{0: true}
	for i, op := range ops {
		next := map[int]bool{}
		for k := range reach {
			if class[i] != keep {
				next[k] = true
			}
			if class[i] != omit && k < len(got) && sameOp(got[k], op) {
				next[k+1] = true
			}
		}
		reach = next
		if len(reach) == 0 {
			return fmt.Sprintf("does not match at %s", opStr(op))
		}
	}
	if !reach[len(got)] {
		return "reports too much or too little"
	}
	return ""
}

// refTrack explains a reported map of changes per version.
func explainVersions(versions []uint64, recorded [][]Op, got map[uint64]tsonpatch.Patch) string {
	var ops []Op
	var reported []Op
	known := map[uint64]bool{}
	var bound []int
	for i, v := range versions {
		known[v] = true
		ops = append(ops, recorded[i]...)
		reported = append(reported, got[v]...)
		bound = append(bound, len(ops))
	}
	for v, p := range got {
		if !known[v] && len(p) > 0 {
			return fmt.Sprintf("version %d is not in the range", v)
		}
	}
	class := classify(ops)
	if e := explain(ops, class, reported); e != "" {
		return e
	}
	start := 0
	for i, v := range versions { // and per version
		if e := explain(ops[start:bound[i]], class[start:bound[i]], got[v]); e != "" {
			return fmt.Sprintf("version %d: %s", v, e)
		}
		start = bound[i]
	}
	return ""
}

func mapStr(m map[uint64]tsonpatch.Patch) string {
	var vs []uint64
	for v := range m {
		vs = append(vs, v)
	}
	slices.Sort(vs)
	var out []string
	for _, v := range vs {
		if len(m[v]) > 0 {
			out = append(out, fmt.Sprintf("%d:%s", v, opsStr(m[v])))
		}
	}
	return "{" + strings.Join(out, " ") + "}"
}

func versStr(m *model) string {
	var out []string
	for i, ops := range m.vers {
		out = append(out, fmt.Sprintf("%d:%s", m.first+1+uint64(i), opsStr(ops)))
	}
	return fmt.Sprintf("%d:%v %s pending %s", m.first, m.snap0, strings.Join(out, " "), opsStr(m.pool))
}

func opsJSON(ops []Op) []byte {
	type jop struct {
		Op        string `json:"op"`
		Path      string `json:"path"`
		Value     any    `json:"value,omitempty"`
		Timestamp int64  `json:"timestamp"`
	}
	list := make([]jop, len(ops))
	for i, op := range ops {
		list[i] = jop{string(op.Op), op.Path, op.Value, op.Timestamp}
	}
	for i := range list { // omitempty drops "" false 0 of concrete types only through any: keep them
		if list[i].Op == "remove" {
			list[i].Value = nil
		}
	}
	b, err := json.Marshal(list)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// sess is a real document next to its model.
type sess struct {
	c         *Ctx
	lg        *logument.Logument
	m         *model
	held      []heldItem
	note      string
	deviated  bool
	compacted bool // timestamps of re-assertions may be gone
	holding   bool // watch the caller's data and the results
}

type heldItem struct {
	what string
	now  func() string
	was  string
}

func (s *sess) hold(what string, now func() string) {
	if !s.holding {
		return
	}
	s.held = append(s.held, heldItem{what, now, now()})
}

func (s *sess) checkHeld() {
	for _, h := range s.held {
		if n := h.now(); n != h.was {
			s.c.Failf("%s changed\n was %s\n now %s", h.what, head(h.was, 1500), head(n, 1500))
		}
	}
}

// open creates the real document; form chooses how the document is passed.
func open(c *Ctx, doc *N, form int) *sess {
	return openHolding(c, doc, form, false)
}

func openHolding(c *Ctx, doc *N, form int, holding bool) *sess {
	s := &sess{c: c, m: newModel(doc), holding: holding}
	c.Log("create %v (form %d)", doc, form)
	switch form {
	case 0:
		t := doc.toT()
		s.hold("the initial document", func() string { return fromT(t).String() })
		s.lg = logument.NewLogument(t, nil)
	case 1:
		s.lg = logument.NewLogument(text(doc), nil)
	default:
		b := []byte(text(doc))
		s.hold("the buffer", func() string { return string(b) })
		s.lg = logument.NewLogument(b, nil)
	}
	c.Step()
	return s
}

// text writes a document in the format of the grammar, independently.
func text(n *N) string {
	var b strings.Builder
	ts := func(n *N) string {
		if n.ts < 0 {
			return "<>"
		}
		return fmt.Sprintf("<%d>", n.ts)
	}
	var w func(n *N)
	w = func(n *N) {
		switch n.k {
		case 'o':
			b.WriteString("{")
			for i, k := range n.keys() {
				if i > 0 {
					b.WriteString(", ")
				}
				q, _ := json.Marshal(k)
				b.Write(q)
				if n.o[k].leaf() {
					b.WriteString(" " + ts(n.o[k]))
				}
				b.WriteString(": ")
				w(n.o[k])
			}
			b.WriteString("}")
		case 'a':
			b.WriteString("[")
			for i, v := range n.a {
				if i > 0 {
					b.WriteString(", ")
				}
				if v.leaf() {
					b.WriteString(ts(v) + " ")
				}
				w(v)
			}
			b.WriteString("]")
		default:
			q, _ := json.Marshal(n.toJ())
			b.Write(q)
		}
	}
	w(n)
	if n.leaf() {
		b.WriteString(" " + ts(n))
	}
	return b.String()
}

const storeForms = 6

func (s *sess) store(ops []Op, form int) {
	v := s.m.store(ops)
	if v != vOK {
		panic("harness: store of an inapplicable patch")
	}
	s.c.Step()
	s.c.Log("store %s (form %d)", lops(ops), form)
	switch form {
	case 0:
		p := make(tsonpatch.Patch, len(ops), len(ops)+3)
		copy(p, ops)
		s.hold("a stored patch of the caller", func() string { return opsStr(p[:cap(p)]) })
		s.lg.Store(p)
	case 1:
		p := append(make([]tsonpatch.Operation, 0, len(ops)+3), ops...)
		s.hold("a stored patch of the caller", func() string { return opsStr(p[:cap(p)]) })
		s.lg.Store(p)
	case 2:
		s.lg.Store(string(opsJSON(ops)))
	case 3:
		b := opsJSON(ops)
		s.hold("a stored buffer of the caller", func() string { return string(b) })
		s.lg.Store(b)
	case 4:
		var ps []tsonpatch.Patch
		for _, op := range ops { // lists with room at the end
			p := make(tsonpatch.Patch, 1, 4)
			p[0] = op
			s.hold("a stored list of patches of the caller", func() string { return opsStr(p[:cap(p)]) })
			ps = append(ps, p)
		}
		s.lg.Store(ps)
	case 5:
		for _, op := range ops {
			s.lg.Store(op)
		}
	case 6: // and the caller reuses its list
		p := make(tsonpatch.Patch, len(ops), len(ops)+3)
		copy(p, ops)
		s.lg.Store(p)
		p = p[:cap(p)]
		for i := range p {
			p[i] = rpl("/clobbered", "by the caller", 999)
		}
	}
}

func (s *sess) append() {
	s.c.Log("append")
	s.c.Step()
	s.m.append()
	if err := s.lg.Append(); err != nil {
		s.c.Failf("Append fails: %v", err)
	}
}

// set runs Set or TestSet.
func (s *sess) set(op Op, test bool) {
	s.c.Step()
	s.c.Log("set(test %v) %s", test, lop(op))
	want := []Op{op}
	if op.Op != "add" && op.Op != "replace" {
		want = nil // not taken
	}
	if test && op.Op == "replace" {
		cur, ok, gray := s.m.cur.get(splitPath(op.Path))
		if gray {
			panic("harness: gray set")
		}
		if ok && cur.leaf() && sameValue(cur.toJ(), op.Value) {
			want = nil
		}
	}
	before := s.m.clone()
	v := vOK
	if want != nil {
		v = s.m.store(want)
	}
	if v == vGray {
		panic("harness: gray set")
	}
	r := catch(func() {
		if test {
			s.lg.TestSet(s.m.last(), op)
		} else {
			s.lg.Set(s.m.last(), op)
		}
	})
	if v == vErr {
		s.m = before // fails without any effect
		s.c.Log("  (cannot be applied)")
		if r == nil {
			s.c.Failf("Set of %s succeeds, but it cannot be applied to\n  %v", opStr(op), s.m.cur)
		}
		return
	}
	if r != nil {
		s.c.Failf("Set of %s panics: %v", opStr(op), r)
	}
	if test && want != nil && len(s.lg.PatchPool) == len(s.m.pool) {
		// a missing path may be recorded as an addition
		last := len(s.m.pool) - 1
		if got := s.lg.PatchPool[last]; got.Op == "add" && op.Op == "replace" {
			s.m.pool[last].Op = "add"
		}
	}
}

func (s *sess) snapshot(v uint64) {
	s.c.Step()
	s.c.Log("Snapshot(%d)", v)
	got := s.lg.Snapshot(v)
	s.holdf("the returned Snapshot(%d)", []any{v}, func() string { return fromT(got).String() })
	want := s.m.snaps()[v-s.m.first]
	if !eqn(fromT(got), want, !s.compacted) {
		s.c.Failf("Snapshot(%d) is\n  %v, the recorded changes give\n  %v\n  of %s", v, fromT(got), want, versStr(s.m))
	}
}

func (s *sess) tsnapshot(t int64) {
	want, v := s.m.tsnap(t)
	if v != vOK {
		return // the changes cannot be applied in this order
	}
	s.c.Step()
	s.c.Log("TemporalSnapshot(%d)", t)
	s.m.append()
	got := s.lg.TemporalSnapshot(t)
	s.holdf("the returned TemporalSnapshot(%d)", []any{t}, func() string { return fromT(got).String() })
	if !eqn(fromT(got), want, !s.compacted) {
		s.c.Failf("TemporalSnapshot(%d) is\n  %v, the changes up to then give\n  %v\n  of %s", t, fromT(got), want, versStr(s.m))
	}
}

// versions vi..vj and their changes, including those recorded at the first
// version of a slice when withFirst.
func (m *model) span(vi, vj uint64) ([]uint64, [][]Op) {
	var vs []uint64
	var ops [][]Op
	for v := vi; v <= vj; v++ {
		vs = append(vs, v)
		if v > m.first {
			ops = append(ops, m.vers[v-m.first-1])
		} else {
			ops = append(ops, m.atFirst)
		}
	}
	return vs, ops
}

func (s *sess) track(vi, vj uint64) {
	s.c.Step()
	s.c.Log("Track(%d,%d)", vi, vj)
	got := s.lg.Track(vi, vj)
	s.holdf("the returned Track(%d,%d)", []any{vi, vj}, func() string { return mapStr(got) })
	vs, ops := s.m.span(vi, vj)
	if e := explainVersions(vs, ops, got); e != "" {
		s.c.Failf("Track(%d,%d) %s\n  reported %s\n  recorded %s", vi, vj, e, mapStr(got), versStr(s.m))
	}
	// replay on the state before the range
	if vi > s.m.first {
		snaps := s.m.snaps()
		before, after := snaps[vi-1-s.m.first], snaps[vj-s.m.first]
		if before == nil || after == nil {
			return
		}
		var reported []Op
		for _, v := range vs {
			reported = append(reported, got[v]...)
		}
		if n, v := refPatch(before, reported); v != vOK || !eqn(n, after, false) {
			s.c.Failf("Track(%d,%d): the reported changes %s applied to\n  %v give %s\n  %v, not\n  %v", vi, vj, mapStr(got), before, v, n, after)
		}
	}
}

func (s *sess) ttrack(ti, tj int64) {
	s.c.Step()
	s.c.Log("TemporalTrack(%d,%d)", ti, tj)
	got := s.lg.TemporalTrack(ti, tj)
	s.holdf("the returned TemporalTrack(%d,%d)", []any{ti, tj}, func() string { return mapStr(got) })
	e := ""
	for _, withFirst := range []bool{true, false} {
		vs, all := s.m.span(s.m.first, s.m.last())
		if !withFirst {
			if len(s.m.atFirst) == 0 {
				break
			}
			all[0] = nil
		}
		in := make([][]Op, len(all))
		for i, ops := range all {
			for _, op := range ops {
				if op.Timestamp >= ti && op.Timestamp <= tj {
					in[i] = append(in[i], op)
				}
			}
		}
		if e = explainVersions(vs, in, got); e == "" {
			return
		}
	}
	s.c.Failf("TemporalTrack(%d,%d) %s\n  reported %s\n  recorded %s", ti, tj, e, mapStr(got), versStr(s.m))
}

// slice takes a slice and checks that it is a document of its own.
func (s *sess) slice(vi, vj uint64) *sess {
	s.c.Step()
	s.c.Log("Slice(%d,%d)", vi, vj)
	lg := s.lg.Slice(vi, vj)
	snaps := s.m.snaps()
	t := &sess{c: s.c, lg: lg, compacted: s.compacted, note: fmt.Sprintf("slice %d..%d: ", vi, vj)}
	t.m = &model{first: vi, snap0: snaps[vi-s.m.first], cur: snaps[vj-s.m.first]}
	if vi > s.m.first {
		t.m.atFirst = s.m.vers[vi-s.m.first-1]
	} else {
		t.m.atFirst = s.m.atFirst
	}
	t.m.vers = slices.Clone(s.m.vers[vi-s.m.first : vj-s.m.first])
	return t
}

func (s *sess) tslice(ti, tj int64) *sess {
	var base *N
	v := vOK
	if ti == math.MinInt64 {
		base = s.m.snap0
	} else {
		base, v = s.m.tsnap(ti - 1)
	}
	cur, v2 := s.m.tsnap(tj)
	if v != vOK || v2 != vOK {
		return nil
	}
	s.c.Step()
	s.c.Log("TemporalSlice(%d,%d)", ti, tj)
	s.m.append()
	lg := s.lg.TemporalSlice(ti, tj)
	t := &sess{c: s.c, lg: lg, compacted: s.compacted, note: fmt.Sprintf("temporal slice %d..%d: ", ti, tj)}
	var want []Op
	for _, op := range s.m.all() {
		if op.Timestamp >= ti && op.Timestamp <= tj {
			want = append(want, op)
		}
	}
	if len(lg.Version) == 0 {
		s.c.Failf("TemporalSlice(%d,%d) has no version", ti, tj)
	}
	var got []Op
	t.m = &model{first: lg.Version[0], snap0: base, cur: cur, loose: true}
	for i, v := range lg.Version {
		if v != lg.Version[0]+uint64(i) {
			s.c.Failf("TemporalSlice(%d,%d) has the versions %v", ti, tj, lg.Version)
		}
		if i > 0 {
			t.m.vers = append(t.m.vers, slices.Clone([]Op(lg.Patches[v])))
			got = append(got, lg.Patches[v]...)
		}
	}
	n := 0
	for _, p := range lg.Patches {
		n += len(p)
	}
	if n != len(got) || !sameOps(got, want) {
		s.c.Failf("TemporalSlice(%d,%d) keeps the changes %s, not %s", ti, tj, mapStr(lg.Patches), opsStr(want))
	}
	return t
}

func (s *sess) compact(path string) {
	s.c.Step()
	s.c.Log("Compact(%q)", path)
	ops := s.m.all()
	class := classify(ops)
	if n := len(s.m.atFirst); n > 0 { // a slice may know how it came to its first version
		for i, c := range classify(append(slices.Clone(s.m.atFirst), ops...))[n:] {
			if c != class[i] {
				class[i] = either
			}
		}
	}
	target := targetParts(path)
	for i, op := range ops {
		if !isPrefix(target, splitPath(op.Path)) {
			class[i] = keep
		}
	}
	s.lg.Compact(path)
	start := 0
	for i := range s.m.vers {
		v := s.m.first + 1 + uint64(i)
		n := len(s.m.vers[i])
		if e := explain(ops[start:start+n], class[start:start+n], s.lg.Patches[v]); e != "" {
			s.c.Failf("Compact(%q), version %d: %s\n  is now %s\n  before %s", path, v, e, opsStr(s.lg.Patches[v]), opsStr(s.m.vers[i]))
		}
		start += n
	}
	before := s.m.snaps()
	s.m.vers = slices.Clone(s.m.vers)
	for i := range s.m.vers {
		s.m.vers[i] = slices.Clone([]Op(s.lg.Patches[s.m.first+1+uint64(i)]))
	}
	s.m.dirty()
	s.compacted = true
	for i, n := range s.m.snaps() {
		if before[i] == nil {
			continue // a temporal slice
		}
		if n == nil || !eqn(n, before[i], false) {
			s.c.Failf("Compact(%q) changes the value of version %d\n  from %v\n  to   %v", path, s.m.first+uint64(i), before[i], n)
		}
	}
}

func targetParts(path string) []string {
	if len(path) > 1 {
		path = strings.TrimSuffix(path, "/")
	}
	return splitPath(path)
}

func (s *sess) history(path string) {
	s.c.Step()
	s.c.Log("History(%q)", path)
	got := s.lg.History(path)
	dump := func() string {
		var out []string
		for k, p := range got {
			out = append(out, k+":"+opsStr(p))
		}
		sort.Strings(out)
		return strings.Join(out, " ")
	}
	s.holdf("the returned History(%q)", []any{path}, dump)
	ops := s.m.all()
	class := classify(ops)
	target := targetParts(path)
	want := map[string][]int{}
	for i, op := range ops {
		if isPrefix(target, splitPath(op.Path)) {
			want[op.Path] = append(want[op.Path], i)
		}
	}
	for k, p := range got {
		if want[k] == nil && len(p) > 0 {
			s.c.Failf("History(%q) lists %q, which is not at or below it or has no change: %s\n  of %s", path, k, dump(), versStr(s.m))
		}
	}
	for k, idx := range want {
		list := []Op(got[k])
		initial, existed, _ := s.m.snap0.get(splitPath(k))
		fail := func(e string) {
			s.c.Failf("History(%q) of %q %s\n  reported %s\n  of %s", path, k, e, opsStr(list), versStr(s.m))
		}
		first := true
		var sub []Op
		var cl []must
		for _, i := range idx {
			c := class[i]
			if first && ops[i].Op != "remove" && existed && initial.leaf() && sameValue(initial.toJ(), ops[i].Value) {
				c = either // sets the value it had initially
			}
			first = false
			sub = append(sub, ops[i])
			cl = append(cl, c)
		}
		if len(list) == 0 && !slices.Contains(cl, keep) {
			continue // no value change
		}
		if existed && initial.k != 'z' {
			if len(list) == 0 || list[0].Op != "add" || list[0].Path != k || !sameInitial(list[0].Value, initial) {
				fail("does not start with the initial value")
			}
			list = list[1:]
		} else if existed && len(list) > 0 && list[0].Op == "add" && list[0].Value == nil {
			list = list[1:]
		}
		if e := explain(sub, cl, list); e != "" {
			fail(e)
		}
	}
}

func sameInitial(v any, n *N) bool {
	if t, ok := v.(tson.Value); ok {
		return eq(fromT(t), n)
	}
	return eqn(fromJ(v), n, false)
}

// --- the oracles of the properties on the whole document ---

// recorded checks versions, recorded and pending changes.
func (s *sess) recorded() {
	lg, m := s.lg, s.m
	if len(lg.Version) != len(m.vers)+1 {
		s.c.Failf("%sthe versions are %v, not %d..%d", s.note, lg.Version, m.first, m.last())
	}
	for i, v := range lg.Version {
		if v != m.first+uint64(i) {
			s.c.Failf("%sthe versions are %v, not %d..%d", s.note, lg.Version, m.first, m.last())
		}
	}
	for i, ops := range m.vers {
		v := m.first + 1 + uint64(i)
		if !sameOps(lg.Patches[v], ops) {
			s.c.Failf("%sversion %d holds %s, not %s", s.note, v, opsStr(lg.Patches[v]), opsStr(ops))
		}
	}
	for v, p := range lg.Patches {
		if (v < m.first || v > m.last()) && len(p) > 0 {
			s.c.Failf("%schanges are recorded for version %d, which does not exist: %s", s.note, v, opsStr(p))
		}
	}
	if !sameOps(lg.PatchPool, m.pool) {
		s.c.Failf("%sthe pending changes are %s, not %s", s.note, opsStr(lg.PatchPool), opsStr(m.pool))
	}
}

func (s *sess) current() {
	if got := fromT(s.lg.CurrentState); !eqn(got, s.m.cur, !s.compacted) {
		s.c.Failf("%sthe current state is\n  %v, the changes give\n  %v\n  of %s", s.note, got, s.m.cur, versStr(s.m))
	}
}

func (s *sess) allSnapshots(down bool) {
	snaps := s.m.snaps()
	for i := range snaps {
		if down {
			i = len(snaps) - 1 - i
		}
		if snaps[i] != nil {
			s.snapshot(s.m.first + uint64(i))
		}
	}
}

func (s *sess) allTemporal(times []int64) {
	for _, t := range times {
		s.tsnapshot(t)
	}
}

func (s *sess) allTracks() {
	for vi := s.m.first; vi <= s.m.last(); vi++ {
		for vj := vi; vj <= s.m.last(); vj++ {
			s.track(vi, vj)
		}
	}
}

func (s *sess) allTTracks(times []int64) {
	for i, ti := range times {
		for _, tj := range times[i:] {
			s.ttrack(ti, tj)
		}
	}
}

// fp is a fingerprint of everything the document answers.
func fp(lg *logument.Logument, times []int64, targets []string) string {
	var b strings.Builder
	put := func(what string, f func() string) {
		fmt.Fprintf(&b, "%s = ", what)
		if r := catch(func() { b.WriteString(f()) }); r != nil {
			fmt.Fprintf(&b, "panic")
		}
		b.WriteByte('\n')
	}
	put("versions", func() string { return fmt.Sprint(lg.Version) })
	put("current", func() string { return fromT(lg.CurrentState).String() })
	put("patches", func() string { return mapStr(lg.Patches) })
	put("pool", func() string { return opsStr(lg.PatchPool) })
	vs := slices.Clone(lg.Version)
	for i, v := range vs {
		put(fmt.Sprintf("Snapshot(%d)", v), func() string { return fromT(lg.Snapshot(v)).String() })
		for _, w := range vs[i:] {
			put(fmt.Sprintf("Track(%d,%d)", v, w), func() string { return mapStr(lg.Track(v, w)) })
		}
	}
	for i, t := range times {
		for _, u := range times[i:] {
			put(fmt.Sprintf("TemporalTrack(%d,%d)", t, u), func() string { return mapStr(lg.TemporalTrack(t, u)) })
		}
	}
	for _, p := range targets {
		put(fmt.Sprintf("History(%q)", p), func() string {
			var out []string
			for k, p := range lg.History(p) {
				out = append(out, k+":"+opsStr(p))
			}
			sort.Strings(out)
			return strings.Join(out, " ")
		})
	}
	if lg.PatchPool == nil {
		for _, t := range times {
			put(fmt.Sprintf("TemporalSnapshot(%d)", t), func() string { return fromT(lg.TemporalSnapshot(t)).String() })
		}
	}
	return b.String()
}

func diffLines(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := ""
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("\n  %s\n  %s", head(x[i], 900), head(o, 900))
		}
	}
	return ""
}

// stateKey identifies a state of the document, cached snapshots included.
func (s *sess) stateKey() string {
	b := make([]byte, 0, 512)
	b = append(b, s.m.snap0.k, byte(len(s.m.snap0.o)))
	put := func(ops []Op) {
		for _, op := range ops {
			b = append(b, op.Op...)
			b = append(b, op.Path...)
			switch v := op.Value.(type) {
			case string:
				b = append(b, v...)
			case float64:
				b = strconv.AppendFloat(b, v, 'g', -1, 64)
			case int:
				b = strconv.AppendInt(b, int64(v), 10)
			case bool:
				b = strconv.AppendBool(b, v)
			}
			b = strconv.AppendInt(append(b, '@'), op.Timestamp, 10)
		}
		b = append(b, '|')
	}
	for _, ops := range s.m.vers {
		put(ops)
	}
	put(s.m.pool)
	for v := s.m.first; v <= s.m.last(); v++ {
		if _, ok := s.lg.Snapshots[v]; ok {
			b = append(b, byte(v))
		}
	}
	return string(b)
}

// strings made only when they are printed
type lop Op
type lops []Op

func (o lop) String() string  { return opStr(Op(o)) }
func (o lops) String() string { return opsStr(o) }

func (s *sess) holdf(format string, args []any, now func() string) {
	if s.holding {
		s.hold(fmt.Sprintf(format, args...), now)
	}
}
