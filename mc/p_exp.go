package main

import (
	"cmp"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"maps"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzrt"
)

func opKind(s string) tsonpatch.OpType { return tsonpatch.OpType(s) }

// ---- C23: the comparison document --------------------------------------

type change = exp.TsonPatch

// era is a value in effect from one time up to and including another.
type era struct {
	from, to int64
	v        any
}

// dotted is the path in the comparison document's form.
func dotted(path string) string {
	return strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", ".")
}

// eras says which value of which path was in effect when. ok is false when
// the changes are outside the domain: a value at a path and below it at one
// time, or the removal of a path that has values below it.
func eras(changes []change) (map[string][]era, bool) {
	sorted := slices.Clone(changes)
	slices.SortStableFunc(sorted, func(a, b change) int { return cmp.Compare(a.Timestamp, b.Timestamp) })
	out := map[string][]era{}
	now := map[string]*era{}
	end := func(p string, t int64) {
		if e := now[p]; e != nil && e.from < t {
			out[p] = append(out[p], era{e.from, t - 1, e.v})
		}
		delete(now, p)
	}
	for _, ch := range sorted {
		p := dotted(ch.Path)
		for q := range now {
			if strings.HasPrefix(q, p+".") || strings.HasPrefix(p, q+".") {
				return nil, false
			}
		}
		if ch.Op == "remove" {
			end(p, ch.Timestamp)
			continue
		}
		if e := now[p]; e != nil {
			if reflect.DeepEqual(e.v, ch.Value) {
				continue
			}
			end(p, ch.Timestamp)
		}
		now[p] = &era{from: ch.Timestamp, v: ch.Value}
	}
	for p, e := range now {
		out[p] = append(out[p], era{e.from, math.MaxInt64, e.v})
	}
	return out, true
}

// nested builds a document from the values of paths.
func nested(vals map[string]any) *N {
	root := obj()
	for p, v := range vals {
		n := root
		parts := strings.Split(p, ".")
		for _, part := range parts[:len(parts)-1] {
			if n.o[part] == nil {
				n.o[part] = obj()
			}
			n = n.o[part]
		}
		n.o[parts[len(parts)-1]] = fromJ(v)
	}
	return root
}

func at(es map[string][]era, t int64) *N {
	vals := map[string]any{}
	for p, l := range es {
		for _, e := range l {
			if e.from <= t && t <= e.to {
				vals[p] = e.v
			}
		}
	}
	return nested(vals)
}

// merged joins neighbours of the same value.
func merged(l []era) []era {
	var out []era
	for _, e := range l {
		if n := len(out); n > 0 && out[n-1].to < math.MaxInt64 && out[n-1].to+1 == e.from && reflect.DeepEqual(out[n-1].v, e.v) {
			out[n-1].to = e.to
			continue
		}
		out = append(out, e)
	}
	return out
}

func inWindow(l []era, ti, tj int64) []era {
	var out []era
	for _, e := range l {
		if e.from <= tj && e.to >= ti {
			out = append(out, e)
		}
	}
	return out
}

func sameEras(a, b []era) bool {
	return slices.EqualFunc(a, b, func(x, y era) bool { return x.from == y.from && x.to == y.to && reflect.DeepEqual(x.v, y.v) })
}

// readTrack reads what a track reported.
func (c *Ctx) readTrack(got []map[string]any) []era {
	var out []era
	for _, g := range got {
		s, _ := g["timestamp"].(string)
		from, to, _ := strings.Cut(s, "-")
		f, err1 := strconv.ParseInt(from, 10, 64)
		t, err2 := strconv.ParseInt(to, 10, 64)
		if err1 != nil || err2 != nil {
			c.Failf("a track has the time range %q", s)
		}
		out = append(out, era{f, t, g["data"]})
	}
	return out
}

var predicates = []struct {
	name string
	f    func(v any) bool
}{
	{"always", func(v any) bool { return true }},
	{"> 1.5", func(v any) bool { f, ok := v.(float64); return ok && f > 1.5 }},
	{"is 1", func(v any) bool { return v == 1.0 }},
}

// checkTJ decides C23 for a comparison document.
func (c *Ctx) checkTJ(doc *exp.TJSONDocument, es map[string][]era, times []int64, paths []string, describe func() string) {
	for _, t := range times {
		c.Step()
		got, err := doc.TemporalSnapshot(t)
		if err != nil {
			c.Failf("TemporalSnapshot(%d) fails: %v\n%s", t, err, describe())
		}
		if want := at(es, t); !eq(fromJ(any(got)), want) {
			c.Failf("TemporalSnapshot(%d) is\n  %v, not\n  %v\n%s", t, fromJ(any(got)), want, describe())
		}
	}
	for _, p := range paths {
		for _, w := range windows(times) {
			if w[0] > w[1] {
				continue
			}
			c.Step()
			track, err := doc.TemporalTrack(p, w[0], w[1])
			if err != nil {
				if len(es[p]) > 0 {
					c.Failf("TemporalTrack(%s,%d,%d) fails: %v\n%s", p, w[0], w[1], err, describe())
				}
				continue
			}
			got := c.readTrack(track)
			want := inWindow(es[p], w[0], w[1])
			if !sameEras(got, want) && !sameEras(got, inWindow(merged(es[p]), w[0], w[1])) {
				c.Failf("TemporalTrack(%s,%d,%d) is %v, not %v\n%s", p, w[0], w[1], got, want, describe())
			}
			for _, pr := range predicates {
				c.Step()
				events, err := doc.FindEvents(p, w[0], w[1], pr.f)
				if err != nil {
					c.Failf("FindEvents(%s,%d,%d) fails: %v\n%s", p, w[0], w[1], err, describe())
				}
				var starts []int64
				for _, e := range got {
					if pr.f(e.v) {
						starts = append(starts, e.from)
					}
				}
				if !slices.Equal(events, starts) {
					c.Failf("FindEvents(%s,%d,%d) of values %s is %v, not %v\n%s", p, w[0], w[1], pr.name, events, starts, describe())
				}
			}
		}
	}
}

func changesStr(l []change) string {
	var out []string
	for _, ch := range l {
		out = append(out, fmt.Sprintf("%s %s=%#v@%d", ch.Op, ch.Path, ch.Value, ch.Timestamp))
	}
	return strings.Join(out, "; ")
}

type tjWorld struct {
	name   string
	paths  []string
	values []any
	times  []int64
	depth  int
	extra  int
}

var tjWorlds = []tjWorld{
	{"one-path", []string{"a"}, []any{1.0, 2.0}, []int64{0, 1, 2, 5}, 4, 1},
	{"paths", []string{"a", "b.c", "b.d"}, []any{1.0, 2.0}, []int64{0, 1, 3}, 3, 1},
	{"spellings", []string{"b.c", "/b/c", "b/c"}, []any{1.0, 2.0}, []int64{1, 3}, 3, 1},
	{"nesting", []string{"a", "a.b", "a.b.c", "ab"}, []any{1.0}, []int64{0, 1, 2}, 4, 1},
	{"values", []string{"x.y"}, []any{0.0, "", false, "0", true, 1.0, 1.5, "a-b"}, []int64{1, 2}, 3, 1},
	{"large-times", []string{"a.b"}, []any{1.0, 2.0}, []int64{0, big, big + 1, 1700000000123456789, math.MaxInt64 - 1}, 3, 1},
	{"deep", []string{"a.b.c.d.e.f.g.h.i.j.k.l", "/a/b/c/d/e/f/g/h/i/j/k/m", "a.b.c.d.e.f.g.h.x"}, []any{1.0, 2.0}, []int64{1, 3}, 3, 1},
	{"near", []string{"a", "A"}, []any{0.1, 0.10000000149011612, "x", "X", "x "}, []int64{1, 2}, 3, 1},
	{"digits", []string{"0.1", "0.10", "-.-"}, []any{1.0, 3.0}, []int64{0, 9, 10}, 3, 1},
}

func (w *tjWorld) choices() []change {
	var out []change
	for _, p := range w.paths {
		for _, t := range w.times {
			for i, v := range w.values {
				op := "add"
				if i%2 == 1 {
					op = "replace"
				}
				out = append(out, change{Op: op, Path: p, Value: v, Timestamp: t})
			}
			out = append(out, change{Op: "remove", Path: p, Timestamp: t})
		}
	}
	return out
}

func around(ts []int64) []int64 {
	set := map[int64]bool{}
	for _, t := range ts {
		set[t] = true
		if t > math.MinInt64 {
			set[t-1] = true
		}
		if t < math.MaxInt64 {
			set[t+1] = true
		}
	}
	var out []int64
	for t := range set {
		out = append(out, t)
	}
	slices.Sort(out)
	return out
}

func (c *Ctx) fromChanges(l []change) *exp.TJSONDocument {
	given := slices.Clone(l)
	c.Step()
	doc, err := exp.FromTSONPatches(l)
	if err != nil {
		c.Failf("FromTSONPatches fails: %v", err)
	}
	if !slices.EqualFunc(given, l, func(a, b change) bool { return reflect.DeepEqual(a, b) }) {
		c.Failf("FromTSONPatches changed the caller's list\n  from %s\n  to %s", changesStr(given), changesStr(l))
	}
	return doc
}

func tjFamilies(tier string) []Family {
	var out []Family
	for i := range tjWorlds {
		w := tjWorlds[i]
		out = append(out, Family{Name: "history-" + w.name, Depth: w.depth, Extra: w.extra, Orders: 2, Weight: 2, Body: func(c *Ctx) {
			all := w.choices()
			var l []change
			for range c.Depth {
				l = append(l, all[c.Choose(len(all))])
			}
			c.Log("%s", changesStr(l))
			es, ok := eras(l)
			if !ok {
				c.Prune()
			}
			doc := c.fromChanges(l)
			var paths []string
			for _, p := range w.paths {
				if !slices.Contains(paths, dotted(p)) {
					paths = append(paths, dotted(p))
				}
			}
			var used []int64
			for _, ch := range l {
				used = append(used, ch.Timestamp)
			}
			times := around(used)
			if len(times) > 8 && c.Depth > 2 {
				times = around(used[:1])
				for _, t := range used {
					if !slices.Contains(times, t) {
						times = append(times, t)
					}
				}
				slices.Sort(times)
			}
			describe := func() string { return "  changes " + changesStr(l) }
			c.checkTJ(doc, es, times, paths, describe)
			// queries leave the document as it was
			c.checkTJ(doc, es, times[:1], paths[:1], describe)
			c.State(fmt.Sprint(es))
		}})
	}
	out = append(out, Family{Name: "scale", Orders: 2, Body: func(c *Ctx) {
		n := scaleSizes[c.Choose(len(scaleSizes))]
		shape := c.Choose(5)
		rev := c.Bool()
		var l []change
		for i := range n {
			ch := change{Op: "replace", Path: "a.b", Value: float64(i), Timestamp: int64(i)}
			switch shape {
			case 1: // few values, many changes at one time
				ch.Value, ch.Timestamp = float64(i%3), int64(i/4)
			case 2: // many paths
				ch.Path = fmt.Sprintf("p%d.q", i)
				ch.Value = 2.0
			case 3: // set and removed in turn
				if i%2 == 1 {
					ch = change{Op: "remove", Path: "a.b", Timestamp: int64(i)}
				}
			case 4: // two paths
				ch.Path = []string{"a.b", "a.c"}[i%2]
				ch.Value = float64(i / 4)
				ch.Timestamp = int64(i / 3)
			}
			l = append(l, ch)
		}
		if rev {
			slices.Reverse(l)
		}
		c.Log("shape %d of %d changes, reversed %v", shape, n, rev)
		es, _ := eras(l)
		doc := c.fromChanges(l)
		m := int64(n)
		c.checkTJ(doc, es, []int64{-1, 0, 1, m / 2, m - 1, m, m + 7}, []string{"a.b", dotted(l[n-1].Path)}, func() string { return fmt.Sprintf("  shape %d of %d changes", shape, n) })
	}}, Family{Name: "items", Depth: 4, Extra: 1, Body: func(c *Ctx) {
		// items given directly, in any order
		var l []era
		left := []era{{0, 4, 1.0}, {5, 5, 2.0}, {7, 10, 1.0}, {11, math.MaxInt64, 3.0}, {0, 2, "x"}}
		doc := exp.NewTJSONDocument()
		es := map[string][]era{}
		for range c.Depth {
			if len(left) == 0 {
				break
			}
			i := c.Choose(len(left))
			e := left[i]
			left = slices.Delete(slices.Clone(left), i, i+1)
			p := []string{"a", "b.c"}[c.Choose(2)]
			if e.v == "x" {
				p = "b.d"
			}
			c.Step()
			if err := doc.AddItem(p, e.from, e.to, e.v); err != nil {
				c.Failf("AddItem(%s,%d,%d,%v) fails: %v", p, e.from, e.to, e.v, err)
			}
			l = append(l, e)
			es[p] = append(es[p], e)
			c.Log("%s %v", p, e)
		}
		for _, x := range es {
			slices.SortFunc(x, func(a, b era) int { return cmp.Compare(a.from, b.from) })
		}
		c.checkTJ(doc, es, []int64{-1, 0, 2, 3, 4, 5, 6, 7, 10, 11, 12}, []string{"a", "b.c", "b.d"}, func() string { return fmt.Sprintf("  items %v", es) })
	}})
	return out
}

// ---- C24: the scenario machine -----------------------------------------

const socPath = "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"

func allSignals(v *exp.VehicleData) map[string]*exp.SensorData {
	out := map[string]*exp.SensorData{}
	for _, m := range []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes} {
		for p, s := range m {
			out[p] = s
		}
	}
	return out
}

// behaviour renders how a signal behaves.
func behaviour(s *exp.SensorData, baseline bool) string {
	var b strings.Builder
	b.WriteString(s.ChangePattern)
	for _, k := range sortedNames(s.ChangeParams) {
		if k == "baseline" && !baseline {
			b.WriteString(" baseline")
			continue
		}
		fmt.Fprintf(&b, " %s=%v", k, s.ChangeParams[k])
	}
	return b.String()
}

func behaviours(v *exp.VehicleData, values bool) map[string]string {
	out := map[string]string{}
	for p, s := range allSignals(v) {
		out[p] = behaviour(s, values)
		if values {
			out[p] += fmt.Sprintf(" value=%v interval=%d type=%s", s.Value, s.UpdateInterval, s.Type)
		}
	}
	return out
}

// copyVehicle is a vehicle in the same state.
func copyVehicle(v *exp.VehicleData) *exp.VehicleData {
	group := func(m map[string]*exp.SensorData) map[string]*exp.SensorData {
		out := make(map[string]*exp.SensorData, len(m))
		for p, s := range m {
			x := *s
			x.ChangeParams = maps.Clone(s.ChangeParams)
			out[p] = &x
		}
		return out
	}
	return &exp.VehicleData{SensorsHighFreq: group(v.SensorsHighFreq), SensorsMedFreq: group(v.SensorsMedFreq), SensorsLowFreq: group(v.SensorsLowFreq),
		ActuatorsHighVar: group(v.ActuatorsHighVar), ActuatorsLowVar: group(v.ActuatorsLowVar), Attributes: group(v.Attributes)}
}

// signalCopy is what a signal was.
type signalCopy struct {
	path string
	now  *exp.SensorData
	was  exp.SensorData
}

func copySignals(v *exp.VehicleData) []signalCopy {
	var out []signalCopy
	for p, s := range allSignals(v) {
		x := *s
		x.ChangeParams = maps.Clone(s.ChangeParams)
		out = append(out, signalCopy{p, s, x})
	}
	return out
}

func (s *signalCopy) same() bool {
	return s.was.ChangePattern == s.now.ChangePattern && s.was.UpdateInterval == s.now.UpdateInterval && s.was.Type == s.now.Type &&
		(s.path == socPath || s.was.Value == s.now.Value) && maps.Equal(s.was.ChangeParams, s.now.ChangeParams)
}

var (
	vehicles  = map[string]*exp.VehicleData{}
	freshOnes = map[string]map[string]string{}
)

// vehicleFor is a new vehicle for a scenario.
func vehicleFor(scenario string) *exp.VehicleData {
	if vehicles[scenario] == nil {
		f, n := zzrt.RandFloat, zzrt.RandIntn
		zeroRandom()
		vehicles[scenario] = exp.InitializeVehicleData(scenario)
		zzrt.RandFloat, zzrt.RandIntn = f, n
	}
	return copyVehicle(vehicles[scenario])
}

// freshBehaviour is how signals behave in a vehicle that starts in a scenario.
func freshBehaviour(scenario string) map[string]string {
	if freshOnes[scenario] == nil {
		freshOnes[scenario] = behaviours(vehicleFor(scenario), false)
	}
	return freshOnes[scenario]
}

var batteries = []float64{10, 99.95, 50, math.Nextafter(10, 11), math.Nextafter(99.95, 0), 0, 100, 9.9, 99.94, math.Nextafter(10, 0), 10.05, math.Nextafter(99.95, 100)}
var pauses = []int64{60000, 59999, 60001, 0, 100, 1 << 33}

type scenarioModel struct {
	cur, prev string
	level     float64
	last      int64
}

func (m *scenarioModel) update(level float64, has bool, now int64) bool {
	if has {
		m.level = level
	}
	if now-m.last < 60000 {
		return false
	}
	switch {
	case m.cur == "urban_traffic" && m.level <= 10:
		m.prev, m.cur = m.cur, "battery_charging"
	case m.cur == "battery_charging" && m.level >= 99.95 && m.prev != m.cur:
		m.cur = m.prev
	default:
		return false
	}
	m.last = now
	return true
}

func scenarioFamily(name string, depth, extra int, starts []string, bats []float64, dts []int64, missing bool) Family {
	return Family{Name: name, Depth: depth, Extra: extra, Body: func(c *Ctx) {
		zeroRandom()
		start := starts[c.Choose(len(starts))]
		level := 60.0
		if missing {
			level = []float64{60, 10, 100}[c.Choose(3)]
		}
		base := []int64{0, 59900, 1 << 40}[c.Choose(3)]
		v := vehicleFor([]string{"urban_traffic", "mixed_scenario"}[base/100%2])
		sensor := v.SensorsMedFreq[socPath]
		if sensor == nil {
			c.Failf("the vehicle has no battery level")
		}
		kind := 0
		if missing {
			kind = c.Choose(3)
		}
		switch kind {
		case 1:
			delete(v.SensorsMedFreq, socPath)
		case 2:
			sensor.Value = "no number"
		}
		c.Log("start in %s with level %v at %d", start, level, base)
		st := exp.NewScenarioState(start, level)
		m := &scenarioModel{start, start, level, 0}
		agree := func(what string) {
			if st.CurrentScenario != m.cur || st.BatteryLevel != m.level || st.LastSwitchTime != m.last || (m.cur == "battery_charging" && st.PreviousScenario != m.prev) {
				c.Failf("%s: the state is %s (before it %s), battery %v, last switch %d, but it should be %s (before it %s), battery %v, last switch %d",
					what, st.CurrentScenario, st.PreviousScenario, st.BatteryLevel, st.LastSwitchTime, m.cur, m.prev, m.level, m.last)
			}
		}
		agree("at the start")
		now := base
		signals := copySignals(v)
		for range c.Depth {
			b := bats[c.Choose(len(bats))]
			now += dts[c.Choose(len(dts))]
			if kind == 0 {
				sensor.Value = b
			}
			c.Log("battery %v at %d", b, now)
			c.Step()
			got := st.UpdateScenarioState(v, now)
			if want := m.update(b, kind == 0, now); got != want {
				c.Failf("the update at %d with battery %v in %s reported a switch: %v, should be %v", now, b, m.cur, got, want)
			}
			agree(fmt.Sprintf("after the update at %d with battery %v", now, b))
			if kind == 0 && sensor.Value != b {
				c.Failf("the update changed the battery level from %v to %v", b, sensor.Value)
			}
			if !got {
				for i := range signals {
					if s := &signals[i]; !s.same() {
						c.Failf("without a switch, %s changes from\n  %v to\n  %v", s.path, s.was, *s.now)
					}
				}
				continue
			}
			signals = copySignals(v)
			fresh := freshBehaviour(m.cur)
			for p, s := range allSignals(v) {
				want := s.ChangePattern
				if vss := exp.VSSSensors[p]; vss != nil && vss.ChangePatterns[m.cur] != "" {
					want = vss.ChangePatterns[m.cur]
				}
				if s.ChangePattern != want {
					c.Failf("after the switch to %s, %s behaves as %s, not %s", m.cur, p, s.ChangePattern, want)
				}
				if a, b := behaviour(s, false), fresh[p]; a != b {
					c.Failf("after the switch to %s, %s behaves as\n  %s, in a vehicle that starts in it\n  %s", m.cur, p, a, b)
				}
				if p == socPath {
					if slope := s.ChangeParams["slope"]; m.cur == "battery_charging" && slope <= 0 || m.cur == "urban_traffic" && slope >= 0 {
						c.Failf("after the switch to %s the battery level has the slope %v", m.cur, slope)
					}
				}
			}
			c.State(fmt.Sprintf("%v %v", *m, behaviours(v, false)))
		}
	}}
}

// zeroRandom: every random number is one half or zero.
func zeroRandom() {
	setRandom(func() float64 { return 0.5 }, func(n int) int { return 0 })
}

func setRandom(f func() float64, n func(int) int) { zzrt.RandFloat, zzrt.RandIntn = f, n }

// ---- C25: the simulation -----------------------------------------------

type jpatch struct {
	Op    string `json:"op"`
	Path  string `json:"path"`
	Value any    `json:"value"`
}

func (c *Ctx) readJSON(name string, v any) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Failf("a file is missing: %v", err)
	}
	if err = json.Unmarshal(b, v); err != nil {
		c.Failf("%s is not valid: %v\n%s", filepath.Base(name), err, head(string(b), 400))
	}
	return b
}

func (c *Ctx) readCSV(name string) []map[string]string {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Failf("a file is missing: %v", err)
	}
	rows, err := csv.NewReader(strings.NewReader(string(b))).ReadAll()
	if err != nil || len(rows) == 0 {
		c.Failf("%s is not valid: %v\n%s", filepath.Base(name), err, head(string(b), 400))
	}
	var out []map[string]string
	for _, r := range rows[1:] {
		m := map[string]string{}
		for i, h := range rows[0] {
			m[h] = r[i]
		}
		out = append(out, m)
	}
	return out
}

func (c *Ctx) count(row map[string]string, name string) int {
	n, err := strconv.Atoi(row[name])
	if err != nil {
		c.Failf("%s is %q", name, row[name])
	}
	return n
}

// holder finds the object that holds the last part of a path.
func holder(doc map[string]any, path string) (map[string]any, string) {
	parts := splitPath(path)
	if len(parts) == 0 {
		return nil, ""
	}
	for _, p := range parts[:len(parts)-1] {
		next, ok := doc[p].(map[string]any)
		if !ok {
			return nil, ""
		}
		doc = next
	}
	return doc, parts[len(parts)-1]
}

func jsonStr(v any) string { b, _ := json.Marshal(v); return string(b) }

// firstDiff describes the first place at which two JSON values differ.
func firstDiff(a, b any, path string) string {
	x, ok1 := a.(map[string]any)
	y, ok2 := b.(map[string]any)
	if !ok1 || !ok2 {
		if reflect.DeepEqual(a, b) {
			return ""
		}
		return fmt.Sprintf("at %s: %s, not %s", path, head(jsonStr(a), 200), head(jsonStr(b), 200))
	}
	for _, k := range sortedNames(x) {
		if _, ok := y[k]; !ok {
			return fmt.Sprintf("%s/%s is too much", path, k)
		}
		if d := firstDiff(x[k], y[k], path+"/"+k); d != "" {
			return d
		}
	}
	for _, k := range sortedNames(y) {
		if _, ok := x[k]; !ok {
			return fmt.Sprintf("%s/%s is missing", path, k)
		}
	}
	return ""
}

// values strips the bookkeeping of a simulated document.
func simValues(doc any, signals map[string]bool, path string) any {
	m, ok := doc.(map[string]any)
	if !ok {
		return doc
	}
	if signals[path] {
		return m["value"]
	}
	out := map[string]any{}
	for k, v := range m {
		p := k
		if path != "" {
			p = path + "." + k
		}
		out[k] = simValues(v, signals, p)
	}
	return out
}

// checkScenario decides C25 for the files of one scenario.
func (c *Ctx) checkScenario(root, scenario string, signals map[string]*exp.VSSSensor) {
	dir := filepath.Join(root, scenario)
	found, _ := filepath.Glob(filepath.Join(dir, "*", "initial_json.json"))
	if len(found) != 1 {
		c.Failf("%s: there are %d initial documents", scenario, len(found))
	}
	run := filepath.Dir(found[0])
	fail := func(format string, args ...any) { c.Failf("%s: %s", scenario, fmt.Sprintf(format, args...)) }
	var ij, fj, it, ft map[string]any
	c.readJSON(filepath.Join(run, "initial_json.json"), &ij)
	c.readJSON(filepath.Join(run, "final_json.json"), &fj)
	c.readJSON(filepath.Join(run, "initial_tson.json"), &it)
	c.readJSON(filepath.Join(run, "final_tson.json"), &ft)
	var jp []jpatch
	var tp []change
	jb := c.readJSON(filepath.Join(run, "all_json_patches.json"), &jp)
	tb := c.readJSON(filepath.Join(run, "all_tson_patches.json"), &tp)
	c.Step()

	leaf := map[string]bool{}
	for p := range signals {
		leaf[p] = true
	}
	if d := firstDiff(simValues(ij, leaf, ""), simValues(it, leaf, ""), ""); d != "" {
		fail("the initial documents differ %s", d)
	}
	for p := range signals {
		if m, k := holder(ij, p); m == nil || m[k] == nil {
			fail("%s is missing in the initial document", p)
		}
	}

	// The timestamped changes lead from the first to the last document.
	last := int64(-1)
	for i, ch := range tp {
		m, k := holder(it, ch.Path)
		l, ok := m[k].(map[string]any)
		if !ok {
			fail("the timestamped change %d of %q has no target", i, ch.Path)
		}
		if ch.Op != "replace" && ch.Op != "add" {
			fail("the timestamped change %d is a %s", i, ch.Op)
		}
		if reflect.DeepEqual(l["value"], ch.Value) {
			fail("the timestamped change %d of %s at %d does not change the value %v", i, ch.Path, ch.Timestamp, ch.Value)
		}
		if ch.Timestamp < last {
			fail("the timestamped change %d is out of order", i)
		}
		last = ch.Timestamp
		m[k] = map[string]any{"value": ch.Value, "_ts": float64(ch.Timestamp)}
		c.Step()
	}
	if d := firstDiff(it, ft, ""); d != "" {
		fail("the timestamped changes lead to %s", d)
	}

	// So do the plain ones.
	type update struct {
		path    string
		at      int64
		changed bool
		value   any
	}
	var updates []update
	var before []int // plain patches before the update
	for i, p := range jp {
		m, k := holder(ij, p.Path)
		if m == nil || m[k] == nil {
			fail("the plain change %d of %q has no target", i, p.Path)
		}
		if p.Op != "replace" && p.Op != "add" {
			fail("the plain change %d is a %s", i, p.Op)
		}
		path, isTs := strings.CutSuffix(strings.ReplaceAll(strings.TrimPrefix(p.Path, "/"), "/", "."), ".timestamp")
		if isTs {
			f, ok := p.Value.(float64)
			if !ok {
				fail("the plain change %d has the timestamp %v", i, p.Value)
			}
			updates = append(updates, update{path: path, at: int64(f)})
			before = append(before, i)
		} else {
			path = strings.TrimSuffix(path, ".value")
			if n := len(updates) - 1; n < 0 || updates[n].path != path || updates[n].changed {
				fail("the plain change %d of the value of %s has no timestamp before it", i, path)
			} else {
				updates[n].changed, updates[n].value = true, p.Value
			}
			if reflect.DeepEqual(m[k], p.Value) {
				fail("the plain change %d of %s does not change the value %v", i, p.Path, p.Value)
			}
		}
		m[k] = p.Value
		c.Step()
	}
	if d := firstDiff(ij, fj, ""); d != "" {
		fail("the plain changes lead to %s", d)
	}
	if d := firstDiff(simValues(fj, leaf, ""), simValues(ft, leaf, ""), ""); d != "" {
		fail("the final documents differ %s", d)
	}

	// Both record the same value changes.
	n := 0
	for _, u := range updates {
		if !u.changed {
			continue
		}
		if n >= len(tp) || dotted(tp[n].Path) != u.path || tp[n].Timestamp != u.at || !reflect.DeepEqual(tp[n].Value, u.value) {
			fail("the plain change of %s at %d is not the timestamped change %d", u.path, u.at, n)
		}
		n++
	}
	if n != len(tp) {
		fail("there are %d plain and %d timestamped value changes", n, len(tp))
	}

	// Every signal is updated at its multiples of the interval.
	row := c.readCSV(filepath.Join(dir, "results.csv"))
	if len(row) != 1 {
		fail("there are %d results", len(row))
	}
	end := int64(c.count(row[0], "SimulationTimeMs"))
	type mark struct {
		path string
		at   int64
	}
	seen := map[mark]bool{}
	last = -1
	for _, u := range updates {
		s := signals[u.path]
		if s == nil || seen[mark{u.path, u.at}] || u.at < last || u.at%int64(s.UpdateInterval) != 0 || u.at >= end || u.at < 0 {
			fail("there is an update of %s at %d (end %d, after %d)", u.path, u.at, end, last)
		}
		seen[mark{u.path, u.at}] = true
		last = u.at
	}
	for p, s := range signals {
		for t := int64(0); t < end; t += 100 {
			if t%int64(s.UpdateInterval) == 0 && !seen[mark{p, t}] {
				fail("there is no update of %s at %d", p, t)
			}
		}
	}

	// The counts.
	compact := func(b []byte) int {
		var v strings.Builder
		in := false
		esc := false
		for _, x := range b {
			if !in && (x == ' ' || x == '\n') {
				continue
			}
			if in && !esc && x == '\\' {
				esc = true
			} else {
				if x == '"' && !esc {
					in = !in
				}
				esc = false
			}
			v.WriteByte(x)
		}
		return v.Len()
	}
	for name, want := range map[string]int{
		"TotalUpdates": len(updates), "ValueChanges": n, "TimestampOnlyChanges": len(updates) - n, "JsonPatchCount": len(jp),
		"TsonPatchCount": len(tp), "SetTsonPatchCount": len(updates), "JsonPatchSize": compact(jb), "TsonPatchSize": compact(tb)} {
		if got := c.count(row[0], name); got != want {
			fail("%s is %d, not %d", name, got, want)
		}
	}
	timing := c.readCSV(filepath.Join(dir, "timing.csv"))
	if len(timing) != len(updates) {
		fail("%d updates are timed, not %d", len(timing), len(updates))
	}
	for i, r := range timing {
		u := updates[i]
		if c.count(r, "UpdateIndex") != i+1 || int64(c.count(r, "TimeMs")) != u.at || r["SensorPath"] != u.path || r["ValueChanged"] != strconv.FormatBool(u.changed) {
			fail("the update %d of %s at %d (value changed: %v) is timed as %v", i+1, u.path, u.at, u.changed, r)
		}
	}
	cum := c.readCSV(filepath.Join(dir, "cumulative.csv"))
	for i, r := range cum {
		t := int64(c.count(r, "TimeMs"))
		wantJ, wantT := 0, 0
		for i, u := range updates {
			if u.at < t {
				wantJ = before[i] + 1
				if u.changed {
					wantJ++
					wantT++
				}
			}
		}
		if i > 0 && t <= int64(c.count(cum[i-1], "TimeMs")) || c.count(r, "JsonPatchCount") != wantJ || c.count(r, "TsonPatchCount") != wantT {
			fail("before %d ms there are %d plain and %d timestamped changes, reported %v", t, wantJ, wantT, r)
		}
	}
	c.State(jsonStr(ft))
}

func (c *Ctx) inTempDir(f func(dir string)) {
	dir := c.tempDir()
	old, err := os.Getwd()
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}()
	f(dir)
}

var simScenarios = []string{"urban_traffic", "highway_cruising", "battery_charging"}

func (c *Ctx) simulate(signals map[string]*exp.VSSSensor) {
	c.simulateFor(signals, nil, c.checkScenario)
}

// simulateFor runs the simulation and checks what it wrote for each scenario.
func (c *Ctx) simulateFor(signals map[string]*exp.VSSSensor, key []string, check func(root, scenario string, signals map[string]*exp.VSSSensor)) {
	c.inTempDir(func(dir string) {
		old, keys := exp.VSSSensors, exp.KeySensorPaths
		exp.VSSSensors = signals
		if key != nil {
			exp.KeySensorPaths = key
		} else if len(signals) < 10 {
			exp.KeySensorPaths = sortedNames(signals)[:1]
		}
		defer func() { exp.VSSSensors, exp.KeySensorPaths = old, keys }()
		c.Step()
		func() {
			defer c.quiet()()
			exp.RealworldScenario()
		}()
		for _, s := range simScenarios {
			check(filepath.Join(dir, "results", "patch_experiment"), s, signals)
		}
	})
}

func simSignal(path string, def any, category string, interval int, lo, hi float64, patterns ...string) *exp.VSSSensor {
	t := "number"
	switch def.(type) {
	case bool:
		t = "boolean"
	case string:
		t = "string"
	}
	m := map[string]string{}
	for i, p := range patterns {
		m[simScenarios[i]] = p
	}
	return &exp.VSSSensor{Path: path, DefaultValue: def, Type: t, Category: category, UpdateInterval: interval, Min: lo, Max: hi, ChangePatterns: m}
}

func simWorlds() []map[string]*exp.VSSSensor {
	set := func(l ...*exp.VSSSensor) map[string]*exp.VSSSensor {
		m := map[string]*exp.VSSSensor{}
		for _, s := range l {
			m[s.Path] = s
		}
		return m
	}
	return []map[string]*exp.VSSSensor{
		set(simSignal("V.Walk", 0.5, exp.SensorTypeHigh, 100000, 0, 1, "random_walk", "constant_with_noise", "constant")),
		set(simSignal("V.Flag", false, exp.ActuatorTypeLow, 100000, 0, 0, "toggle", "toggle", "constant"),
			simSignal("V.Name", "x y", exp.AttributeType, 150000, 0, 0, "constant", "unknown", "constant")),
		set(simSignal("V.Line", 1.0, exp.SensorTypeMedium, 50000, -3, 3, "linear", "sinusoidal", "random_walk"),
			simSignal("V.In.Noise", 2.0, exp.SensorTypeLow, 100000, 0, 100, "constant_with_noise", "linear", "toggle")),
		set(simSignal("Top", 1.0, exp.ActuatorTypeHigh, 300000, 0, 10, "random_walk", "random_walk", "random_walk"),
			simSignal("W.A", true, exp.SensorTypeMedium, 299900, 0, 0, "toggle", "constant", "toggle"),
			simSignal("W.AB", 0.0, exp.SensorTypeHigh, 300100, -1, 1, "linear", "linear", "linear")),
		set(simSignal("V.Slow", 1.0, exp.SensorTypeHigh, 100, 0, 10, "linear", "constant_with_noise", "linear"),
			simSignal("V.Tiny", 0.0, exp.SensorTypeLow, 1000, 0, 0.6, "random_walk", "constant_with_noise", "random_walk")),
		set(simSignal("Vehicle.Speed", 0.0, exp.SensorTypeHigh, 100000, 0, 220, "random_walk", "constant_with_noise", "constant"),
			simSignal(socPath, 75.0, exp.SensorTypeMedium, 100000, 0, 100, "linear", "linear", "linear")),
	}
}

// deviations plans dev deviations of a stream of random answers up front, at
// any of the first n answers. It returns the counter of the answers.
func (c *Ctx) deviations(salt, n, dev int) *int {
	where := map[int]int{}
	from := 0
	for range dev {
		if from >= n {
			break
		}
		k := c.Choose(3*(n-from) + 1)
		if k == 0 {
			break
		}
		where[from+(k-1)/3] = 1 + (k-1)%3
		from += (k-1)/3 + 1
	}
	c.randomness(salt, 0)
	f, g := zzrt.RandFloat, zzrt.RandIntn
	calls := new(int)
	setRandom(func() float64 {
		v := f()
		k := where[*calls]
		*calls++
		if k > 0 {
			return []float64{0, 0.5, 1 - 1.0/(1<<53)}[k-1]
		}
		return v
	}, func(m int) int {
		v := g(m)
		k := where[*calls]
		*calls++
		if k > 0 {
			return []int{0, m / 2, m - 1}[k-1]
		}
		return v
	})
	return calls
}

var simCalls = map[string]int{}

func simFamilies(tier string) []Family {
	const limit = 1 << 40
	const base = int64(1700000000123456789)
	var out []Family
	for i := range simWorlds() {
		depth := 2
		if i == 4 { // thousands of random numbers
			depth = 1
		}
		out = append(out, Family{Name: fmt.Sprintf("signals-%d", i), Depth: depth, Extra: 1, Orders: 2, Limit: limit, Body: func(c *Ctx) {
			c.clock(base, 700)
			n := 0
			if c.Depth > 1 {
				key := fmt.Sprint(i, c.orderMode)
				if simCalls[key] == 0 {
					count := c.deviations(0, 0, 0)
					c.simulate(simWorlds()[i])
					simCalls[key] = *count + 4
				}
				n = simCalls[key]
			}
			salt := 0
			if c.Depth == 1 {
				salt = c.Choose(4)
			}
			c.Log("signal set %d stream %d", i, salt)
			c.deviations(salt, n, c.Depth-1)
			c.own()
			c.simulate(simWorlds()[i])
		}})
	}
	return append(out, Family{Name: "catalog", Limit: limit, Depth: 2, Extra: 5, Orders: 2, Weight: 4, Body: func(c *Ctx) {
		k := c.Choose(2) + 2*(c.Depth-1)
		c.own()
		c.Log("kind %d", k)
		c.clock(base, 1000)
		n := 0
		switch k {
		case 0, 5, 7, 8, 9, 10, 11, 12, 13:
			c.randomness(k, 0)
		case 1:
			setRandom(func() float64 { return 0 }, func(int) int { return 0 })
		case 2:
			setRandom(func() float64 { return 1 - 1.0/(1<<53) }, func(n int) int { return n - 1 })
		case 3: // in turn
			setRandom(func() float64 { n++; return []float64{0, 1 - 1.0/(1<<53), 0.5}[n%3] }, func(m int) int { n++; return (m - 1) * (n % 2) })
		case 4:
			setRandom(func() float64 { return 0.5 }, func(m int) int { return m / 2 })
		case 6: // around the tolerance
			setRandom(func() float64 { n++; return 0.5 + float64(n%5-2)*0.0001 }, func(m int) int { n++; return n % m })
		}
		c.simulate(exp.VSSSensors)
	}})
}

// ---- C28: the comparison experiment ------------------------------------

type ceWorld struct {
	name    string
	initial string
	changes []change
	paths   []string // paths that can be queried
	depth   int
	extra   int
}

var ceWorlds = []ceWorld{
	{"signals", `{"V":{"S":{"value":5,"timestamp":123},"G":{"value":"D","timestamp":0},"On":{"value":true,"timestamp":2},"SL":{"value":8,"timestamp":0}}}`, []change{
		{Op: "replace", Path: "V.S", Value: 7.0}, {Op: "replace", Path: "V.S", Value: 5.0}, {Op: "replace", Path: "V.S", Value: 9.5},
		{Op: "replace", Path: "V.G", Value: "R"}, {Op: "replace", Path: "V.On", Value: false}, {Op: "replace", Path: "V.SL", Value: 7.5},
	}, []string{"V.S", "V.G"}, 3, 1},
	{"plain", `{"a":1,"b":{"c":"x","d":{"e":2}}}`, []change{
		{Op: "replace", Path: "a", Value: 2.0}, {Op: "replace", Path: "b.d.e", Value: 3.0}, {Op: "replace", Path: "b.d.e", Value: 2.0}, {Op: "remove", Path: "b.c"}, {Op: "add", Path: "b.c", Value: "x"},
	}, []string{"a", "b.d.e", "b.c"}, 3, 1},
	{"growing", `{"m":{"k":{"value":1,"timestamp":9}}}`, []change{
		{Op: "add", Path: "m.n", Value: 10.0}, {Op: "add", Path: "m.n", Value: 11.0}, {Op: "remove", Path: "m.n"}, {Op: "add", Path: "t", Value: "s"}, {Op: "remove", Path: "m.k"}, {Op: "add", Path: "m.k", Value: 1.0},
	}, []string{"m.n", "m.k"}, 3, 1},
	{"arrays", `{"l":[1,{"v":{"value":2,"timestamp":5}},"z"],"n":{"value":null,"timestamp":3},"e":{},"f":[]}`, []change{
		{Op: "replace", Path: "l.0", Value: 4.0}, {Op: "replace", Path: "l.1.v", Value: 3.0}, {Op: "replace", Path: "n", Value: "now"}, {Op: "replace", Path: "n", Value: 6.0},
	}, []string{"l.0", "l.1.v", "n"}, 3, 1},
	{"empty", `{}`, []change{{Op: "add", Path: "a", Value: 1.0}, {Op: "add", Path: "a", Value: 2.0}, {Op: "remove", Path: "a"}, {Op: "add", Path: "b_c", Value: 12.0}, {Op: "replace", Path: "b_c", Value: 13.0}}, []string{"a", "b_c"}, 3, 1},
}

var ceTimes = []int64{0, 1, 3}

// plainValues takes an initial document apart, on its own.
func plainValues(j any) any {
	switch v := j.(type) {
	case map[string]any:
		if x, ok := v["value"]; ok {
			if _, ok := v["timestamp"]; ok {
				if x == nil {
					return ""
				}
				return x
			}
		}
		out := map[string]any{}
		for k, x := range v {
			out[k] = plainValues(x)
		}
		return out
	case []any:
		out := []any{}
		for _, x := range v {
			out = append(out, plainValues(x))
		}
		return out
	}
	return j
}

// initialChanges are the values of a document as changes of time zero.
func initialChanges(n *N, path string) []change {
	var out []change
	join := func(k string) string {
		if path == "" {
			return k
		}
		return path + "." + k
	}
	switch n.k {
	case 'o':
		for _, k := range n.keys() {
			out = append(out, initialChanges(n.o[k], join(k))...)
		}
	case 'a':
		for i, e := range n.a {
			out = append(out, initialChanges(e, join(strconv.Itoa(i)))...)
		}
	case 'z':
	default:
		out = append(out, change{Op: "add", Path: path, Value: n.toJ()})
	}
	return out
}

type ceRun struct {
	c     *Ctx
	dir   string
	e     *exp.TemporalQueryExperiment
	m     *model
	es    map[string][]era
	ops   []Op
	files map[string]bool
	desc  func() string
}

func (r *ceRun) result(res exp.TemporalQueryResult, what string, lgm, tj any) {
	for _, side := range []struct {
		name, file string
		size       int
		want       any
	}{{"document", res.LogumentResultFile, res.LogumentResultSize, lgm}, {"comparison document", res.TJSONResultFile, res.TJSONResultSize, tj}} {
		b, err := os.ReadFile(side.file)
		if err != nil {
			r.c.Failf("%s: the answer of the %s is not in a file: %v\n%s", what, side.name, err, r.desc())
		}
		if r.files[side.file] {
			r.c.Failf("%s: the file %s holds another answer\n%s", what, side.file, r.desc())
		}
		r.files[side.file] = true
		var got, want any
		wb, _ := json.Marshal(side.want)
		if json.Unmarshal(b, &got) != nil || json.Unmarshal(wb, &want) != nil || !reflect.DeepEqual(got, want) {
			r.c.Failf("%s: the file of the %s holds\n  %s, not\n  %s\n%s", what, side.name, head(string(b), 900), head(string(wb), 900), r.desc())
		}
		if side.size != len(wb) {
			r.c.Failf("%s: the size of the answer of the %s is %d, not %d\n%s", what, side.name, side.size, len(wb), r.desc())
		}
	}
}

// start makes an experiment.
func (c *Ctx) experiment(dir string, initial string, l []change) *ceRun {
	in := filepath.Join(dir, "in")
	os.MkdirAll(in, 0755)
	if os.WriteFile(filepath.Join(in, "initial_json.json"), []byte(initial), 0644) != nil {
		panic("harness: cannot write")
	}
	var j any
	json.Unmarshal([]byte(initial), &j)
	doc := fromJ(plainValues(j))
	r := &ceRun{c: c, dir: dir, m: newModel(doc), files: map[string]bool{}}
	for _, ch := range l {
		r.ops = append(r.ops, Op{Op: opKind(ch.Op), Path: ch.Path, Value: ch.Value, Timestamp: ch.Timestamp})
	}
	if r.m.store(r.ops) != vOK {
		c.Prune()
	}
	r.m.append()
	all := append(initialChanges(doc, ""), l...)
	slices.SortStableFunc(all, func(a, b change) int { return cmp.Compare(a.Timestamp, b.Timestamp) })
	r.es, _ = eras(all)
	r.desc = func() string { return "  initial " + initial + "\n  changes " + changesStr(l) }
	given := slices.Clone(l)
	c.Step()
	var err error
	r.e, err = exp.NewTemporalQueryExperiment(in, filepath.Join(dir, "out"), "scen", l)
	if err != nil {
		c.Failf("the experiment fails: %v\n%s", err, r.desc())
	}
	if !slices.EqualFunc(given, l, func(a, b change) bool { return reflect.DeepEqual(a, b) }) {
		c.Failf("the experiment changed the caller's list\n  from %s\n  to %s", changesStr(given), changesStr(l))
	}
	return r
}

func (r *ceRun) snapshots(times []int64) {
	r.c.Step()
	res, err := r.e.RunTemporalSnapshotExperiment(times)
	if err != nil || len(res) != len(times) {
		r.c.Failf("snapshots at %v give %d results, %v\n%s", times, len(res), err, r.desc())
	}
	r.c.tabled(r.e, res, "snapshots results.csv")
	for i, t := range times {
		want, v := r.m.tsnap(t)
		if v != vOK {
			r.c.Prune()
		}
		if got := fromT(r.e.LogumentDoc.TemporalSnapshot(t)); !eq(got, want) {
			r.c.Failf("the state at %d is\n  %v, not\n  %v\n%s", t, got, want, r.desc())
		}
		tj := any(nil)
		if t >= 0 && r.es != nil {
			tj = at(r.es, t).toJ()
		} else {
			tj, _ = r.e.TJSONDocument.TemporalSnapshot(t)
		}
		r.result(res[i], fmt.Sprintf("snapshot %d at %d", i, t), want.toT(), tj)
		if res[i].Parameter != fmt.Sprint(t) || res[i].Scenario != "scen" || res[i].QueryType != "TemporalSnapshot" {
			r.c.Failf("the result %d is of %s %s %s", i, res[i].Scenario, res[i].QueryType, res[i].Parameter)
		}
	}
}

// tableRow is what a table of results says of one.
type tableRow struct{ scenario, kind, parameter, lt, tt, td, ls, ts, sd string }

func (c *Ctx) table(file string) []tableRow {
	f, err := os.Open(file)
	if err != nil {
		c.Failf("the table of results is missing: %v", err)
	}
	defer f.Close()
	rows, err := csv.NewReader(f).ReadAll()
	if err != nil || len(rows) == 0 {
		c.Failf("%s is no table: %v, %d rows", filepath.Base(file), err, len(rows))
	}
	col := map[string]int{}
	for i, name := range rows[0] {
		col[name] = i
	}
	for _, name := range []string{"Scenario", "QueryType", "Parameter", "LogumentTimeNs", "TJSONTimeNs", "TimeDiffPct", "LogumentResultSize", "TJSONResultSize", "SizeDiffPct"} {
		if _, ok := col[name]; !ok {
			c.Failf("%s has no column %s: %q", filepath.Base(file), name, rows[0])
		}
	}
	var out []tableRow
	for _, r := range rows[1:] {
		x := func(n string) string { return r[col[n]] }
		out = append(out, tableRow{x("Scenario"), x("QueryType"), x("Parameter"), x("LogumentTimeNs"), x("TJSONTimeNs"), x("TimeDiffPct"), x("LogumentResultSize"), x("TJSONResultSize"), x("SizeDiffPct")})
	}
	return out
}

// percent tells whether a text is by how many percent a differs from b.
func percent(text string, a, b int64) bool {
	f, err := strconv.ParseFloat(text, 64)
	want := 0.0
	if b > 0 {
		want = 100 * float64(a-b) / float64(b)
	}
	return err == nil && math.Abs(f-want) <= 0.0051+1e-12*math.Abs(want)
}

// tabled saves results as a table and reads it.
func (c *Ctx) tabled(e *exp.TemporalQueryExperiment, res []exp.TemporalQueryResult, name string) {
	given := slices.Clone(res)
	c.Step()
	if err := e.SaveResults(res, name); err != nil {
		c.Failf("saving %d results as %s fails: %v", len(res), name, err)
	}
	if !slices.Equal(given, res) {
		c.Failf("saving changes the results")
	}
	rows := c.table(filepath.Join(e.OutputDir, name))
	if len(rows) != len(res) {
		c.Failf("the table %s of %d results has %d rows", name, len(res), len(rows))
	}
	for i, r := range res {
		w := rows[i]
		if w.scenario != r.Scenario || w.kind != r.QueryType || w.parameter != r.Parameter || w.lt != fmt.Sprint(r.LogumentTimeNs) || w.tt != fmt.Sprint(r.TJSONTimeNs) ||
			w.ls != fmt.Sprint(r.LogumentResultSize) || w.ts != fmt.Sprint(r.TJSONResultSize) ||
			!percent(w.td, r.LogumentTimeNs, r.TJSONTimeNs) || !percent(w.sd, int64(r.LogumentResultSize), int64(r.TJSONResultSize)) {
			c.Failf("row %d of the table of results is %q for the result %+v", i, w, r)
		}
	}
}

// queryable are the paths both documents know.
func (r *ceRun) queryable(paths []string) []string {
	var out []string
	for _, p := range paths {
		if r.es != nil && len(r.es[p]) > 0 {
			out = append(out, p)
		}
	}
	return out
}

func (r *ceRun) inWindow(path string, ti, tj int64) (ops []Op, class []must) {
	var all []Op
	for _, op := range r.ops {
		if op.Timestamp >= ti && op.Timestamp <= tj {
			all = append(all, op)
		}
	}
	cl := classify(all)
	for i, op := range all {
		if op.Path == path {
			ops, class = append(ops, op), append(class, cl[i])
		}
	}
	return
}

func (r *ceRun) tracks(paths []string, ti, tj int64) {
	r.c.Step()
	res, err := r.e.RunTemporalTrackExperiment(paths, ti, tj)
	if err != nil || len(res) != len(paths) {
		r.c.Failf("tracks of %v in %d-%d give %d results, %v\n%s", paths, ti, tj, len(res), err, r.desc())
	}
	r.c.tabled(r.e, res, "tracks results.csv")
	for i, p := range paths {
		what := fmt.Sprintf("track of %s in %d-%d", p, ti, tj)
		b, err := os.ReadFile(res[i].LogumentResultFile)
		var got map[uint64][]map[string]any
		if err != nil || json.Unmarshal(b, &got) != nil {
			r.c.Failf("%s: the answer is not in a file: %v %s\n%s", what, err, b, r.desc())
		}
		var reported []Op
		answer := map[uint64][]Op{}
		track := r.e.LogumentDoc.TemporalTrack(ti, tj)
		for _, v := range sortedVersions(track) {
			for _, op := range track[v] {
				if op.Path == p {
					reported = append(reported, op)
					answer[v] = append(answer[v], op)
				}
			}
		}
		ops, class := r.inWindow(p, ti, tj)
		if e := explain(ops, class, reported); e != "" {
			r.c.Failf("%s %s: %s\n%s", what, e, opsStr(reported), r.desc())
		}
		tjt, err := r.e.TJSONDocument.TemporalTrack(p, ti, tj)
		if err != nil {
			r.c.Failf("%s fails: %v\n%s", what, err, r.desc())
		}
		eg := r.c.readTrack(tjt)
		if want := r.es[p]; !sameEras(eg, inWindow(want, ti, tj)) && !sameEras(eg, inWindow(merged(want), ti, tj)) {
			r.c.Failf("%s: the comparison document says %v, not %v\n%s", what, eg, inWindow(want, ti, tj), r.desc())
		}
		r.result(res[i], what, answer, tjt)
	}
}

func (r *ceRun) events(paths []string, ti, tj int64, thresholds []float64) {
	r.c.Step()
	res, err := r.e.RunEventSearchExperiment(paths, ti, tj, thresholds)
	if err != nil || len(res) != len(paths)*len(thresholds) {
		r.c.Failf("event searches of %v in %d-%d give %d results, %v\n%s", paths, ti, tj, len(res), err, r.desc())
	}
	r.c.tabled(r.e, res, "event results.csv")
	for i, p := range paths {
		for j, thr := range thresholds {
			one := res[i*len(thresholds)+j]
			what := fmt.Sprintf("events of %s > %v in %d-%d", p, thr, ti, tj)
			over := func(v any) bool { f, ok := v.(float64); return ok && f > thr }
			ops, class := r.inWindow(p, ti, tj)
			want := []int64{} // every event that has to be reported
			wantAll := []int64{}
			for k, op := range ops {
				if op.Op != "remove" && over(op.Value) && class[k] != omit {
					wantAll = append(wantAll, op.Timestamp)
					if class[k] == keep {
						want = append(want, op.Timestamp)
					}
				}
			}
			tj2 := []int64{}
			for _, e := range inWindow(r.es[p], ti, tj) {
				if over(e.v) {
					tj2 = append(tj2, e.from)
				}
			}
			var got []int64
			b, _ := os.ReadFile(one.LogumentResultFile)
			if json.Unmarshal(b, &got) != nil {
				r.c.Failf("%s: the file holds %s\n%s", what, b, r.desc())
			}
			if !within(want, got, wantAll) {
				r.c.Failf("%s: the document reports %v, not %v\n%s", what, got, wantAll, r.desc())
			}
			if got == nil {
				r.c.Failf("%s: the file holds %s\n%s", what, b, r.desc())
			}
			tjb, _ := os.ReadFile(one.TJSONResultFile)
			var tgot []int64
			if json.Unmarshal(tjb, &tgot) != nil || !slices.Equal(tgot, tj2) {
				var alt []int64
				for _, e := range inWindow(merged(r.es[p]), ti, tj) {
					if over(e.v) {
						alt = append(alt, e.from)
					}
				}
				if !slices.Equal(tgot, alt) {
					r.c.Failf("%s: the comparison document reports %s, not %v\n%s", what, tjb, tj2, r.desc())
				}
				if tj2 = tgot; tj2 == nil {
					tj2 = []int64{}
				}
			}
			r.result(one, what, got, tj2)
		}
	}
}

// within: got has everything of low and nothing outside of high, in order.
func within(low, got, high []int64) bool {
	sub := func(a, b []int64) bool {
		for _, x := range b {
			if len(a) > 0 && a[0] == x {
				a = a[1:]
			}
		}
		return len(a) == 0
	}
	got = slices.Clone(got)
	slices.Sort(got)
	return sub(low, got) && sub(got, high)
}

func sortedVersions[T any](m map[uint64]T) []uint64 {
	var out []uint64
	for v := range m {
		out = append(out, v)
	}
	slices.Sort(out)
	return out
}

func (w *ceWorld) list(c *Ctx) []change {
	var l []change
	t := 0
	for range c.Depth {
		ch := w.changes[c.Choose(len(w.changes))]
		t += c.Choose(len(ceTimes) - t)
		ch.Timestamp = ceTimes[t]
		l = append(l, ch)
	}
	return l
}

func (c *Ctx) ceQuietly(f func(dir string)) {
	c.inTempDir(func(dir string) {
		defer c.quiet()()
		f(dir)
	})
}

func ceFamilies(tier string) []Family {
	var out []Family
	for i := range ceWorlds {
		w := ceWorlds[i]
		out = append(out, Family{Name: "experiment-" + w.name, Depth: w.depth, Extra: w.extra, Orders: 2, Body: func(c *Ctx) {
			l := w.list(c)
			c.Log("%s", changesStr(l))
			c.own()
			c.ceQuietly(func(dir string) {
				first := len(l) % 3
				if len(l) < 3 {
					first = c.Choose(3)
				}
				c.Log("order of queries %d", first)
				r := c.experiment(dir, w.initial, l)
				paths := r.queryable(w.paths)
				for k := range 3 {
					switch (k + first) % 3 {
					case 0:
						r.snapshots([]int64{3, -1, 0, 1, 2, 3})
					case 1:
						for _, win := range [][2]int64{{0, 4}, {1, 1}, {0, 0}, {2, 3}}[:4-min(2, len(l)/2)] {
							r.tracks(paths, win[0], win[1])
						}
					case 2:
						for _, win := range [][2]int64{{0, 3}, {1, 1}, {0, 0}, {2, 5}}[:4-min(2, len(l)/2)] {
							r.events(paths, win[0], win[1], []float64{6.99, 7, 2}[:3-min(1, len(l)/2)])
						}
					}
				}
				c.State(fmt.Sprint(r.es))
			})
		}})
	}
	out = append(out, Family{Name: "unordered", Orders: 2, Depth: 2, Extra: 2, Body: func(c *Ctx) {
		w := ceWorlds[c.Choose(len(ceWorlds))]
		var l []change
		for range c.Depth {
			ch := w.changes[c.Choose(len(w.changes))]
			ch.Timestamp = []int64{5, 0, 9}[c.Choose(3)]
			l = append(l, ch)
		}
		c.Log("changes %s", changesStr(l))
		c.own()
		c.ceQuietly(func(dir string) {
			c.experiment(dir, w.initial, l).snapshots([]int64{0, 4, 5, 9})
		})
	}})
	out = append(out, Family{Name: "again", Depth: 1, Extra: 1, Body: func(c *Ctx) { // two experiments with the same results directory
		w := ceWorlds[c.Choose(len(ceWorlds))]
		l, l2 := w.list(c), w.list(c)
		first := c.Choose(3)
		c.Log("%s, then %s", changesStr(l), changesStr(l2))
		c.own()
		c.ceQuietly(func(dir string) {
			for _, l := range [][]change{l, l2} {
				r := c.experiment(dir, w.initial, l)
				paths := r.queryable(w.paths)
				for k := range 2 {
					switch (k + first) % 3 {
					case 0:
						r.snapshots([]int64{3, 0})
					case 1:
						r.tracks(paths, 0, 4)
					case 2:
						r.events(paths, 0, 4, []float64{6.99})
					}
				}
			}
		})
	}})
	return append(out, Family{Name: "scale", Orders: 2, Body: func(c *Ctx) {
		n := []int{0, 1, 2, 11, 12, 13, 20, 40, 100, 300}[c.Choose(10)]
		shape := c.Choose(6)
		c.own()
		c.Log("shape %d of %d changes", shape, n)
		initial := `{"a":{"b":{"value":0.5,"timestamp":7},"c":{"value":3,"timestamp":7},"d":{"value":4,"timestamp":8},"e":{"value":5,"timestamp":8}}`
		for k := range 20 {
			initial += fmt.Sprintf(`,"k%02d":{"value":%d,"timestamp":1}`, k, k)
		}
		initial += `,"list":[{"value":-1,"timestamp":1}`
		for k := range 110 {
			initial += fmt.Sprintf(`,{"value":%d,"timestamp":1}`, k)
		}
		initial += `],"deep":{"b":{"c":{"d":{"e":{"f":{"g":{"h":{"value":2,"timestamp":1}}}}}}}}}`
		var l []change
		for i := range n {
			ch := change{Op: "replace", Path: "a.b", Value: float64(i), Timestamp: int64(i)}
			switch shape {
			case 1: // all at one time
				ch.Timestamp = 0
				ch.Path = []string{"a.b", "a.c", "k05"}[i%3]
			case 2:
				ch.Timestamp = int64(i / 5)
				ch.Path = fmt.Sprintf("k%02d", i%20)
			case 3:
				ch.Value = float64(i % 2)
				ch.Timestamp = int64(i / 2)
			case 4: // in no order of time
				ch.Timestamp = int64(i * 7 % 5)
				ch.Path = []string{"a.b", "a.c", "k05"}[i%3]
			case 5:
				ch.Timestamp = int64(n-i) / 3
				ch.Path = []string{"a.b", "a.c"}[i%2]
			}
			l = append(l, ch)
		}
		c.ceQuietly(func(dir string) {
			r := c.experiment(dir, initial, l)
			m := int64(n)
			if shape >= 4 {
				r.snapshots([]int64{0, 1, 2, 4, m / 3, m})
				return
			}
			paths := []string{"a.b", "a.c", "k05"}
			paths = append(paths, "list.9", "list.10", "list.99", "list.110", "deep.b.c.d.e.f.g.h")
			r.events(paths, 0, m, []float64{1.5, 1.54, -1, math.Nextafter(2, 0), 16777217.3})
			r.tracks(paths, m/3, m/2)
			r.snapshots([]int64{0, m / 2, m, 1})
		})
	}}, Family{Name: "steps", Depth: 3, Body: func(c *Ctx) { // a snapshot after every change
		w := ceWorlds[c.Choose(len(ceWorlds))]
		l := w.list(c)
		c.Log("%s", changesStr(l))
		c.own()
		c.ceQuietly(func(dir string) {
			name := filepath.Join(dir, "i.json")
			os.WriteFile(name, []byte(w.initial), 0644)
			var j any
			json.Unmarshal([]byte(w.initial), &j)
			docs := []*N{fromJ(plainValues(j))}
			for _, ch := range l {
				n, v := refOp(docs[len(docs)-1], Op{Op: opKind(ch.Op), Path: ch.Path, Value: ch.Value, Timestamp: ch.Timestamp})
				if v != vOK {
					c.Prune()
				}
				docs = append(docs, n)
			}
			c.Step()
			exp.CreateSnapshot(name, l)
			for i, n := range docs {
				var got, want any
				c.readJSON(filepath.Join(dir, "results", "snapshots", fmt.Sprintf("snapshot_%d.json", i)), &got)
				b, _ := json.Marshal(n.toT())
				if json.Unmarshal(b, &want); !reflect.DeepEqual(got, want) {
					c.Failf("the snapshot after %d changes is %s, not %s\n  initial %s\n  changes %s", i, jsonStr(got), b, w.initial, changesStr(l))
				}
			}
		})
	}}, Family{Name: "tables", Body: func(c *Ctx) { // of results
		texts := []string{"urban_traffic", "", "a,b", "say \"x\"", "two\nlines", " é ", "1,5;2"}
		times := []int64{1000, 0, 1, 3, math.MaxInt64 / 3, 123456789}
		sizes := []int{100, 0, 1, 7, 1 << 40}
		var l []exp.TemporalQueryResult
		i, j := c.Choose(len(times)*len(times)), c.Choose(len(sizes)*len(sizes))
		for k := range c.Choose(3) {
			t := texts[(k*3+i+j)%len(texts)]
			l = append(l, exp.TemporalQueryResult{Scenario: t, QueryType: "Q" + t, Parameter: t + fmt.Sprint(k), LogumentTimeNs: times[(i+k)%len(times)], TJSONTimeNs: times[i/len(times)], LogumentResultSize: sizes[(j+2*k)%len(sizes)], TJSONResultSize: sizes[j/len(sizes)]})
		}
		c.own()
		c.ceQuietly(func(dir string) {
			e := &exp.TemporalQueryExperiment{OutputDir: dir, Scenario: "scen"}
			c.Log("%d results %+v", len(l), l)
			c.tabled(e, l, "longer.csv")
			c.tabled(e, append(slices.Clone(l), l...), "results.csv")
			c.tabled(e, l, "results.csv") // replaces the longer one
			c.tabled(e, nil, "none.csv")
			c.tabled(e, slices.Repeat(l, 70), "long.csv")
			if err := e.SaveResults(l, filepath.Join("missing", "x.csv")); err == nil {
				c.Failf("saving where there is no directory reports success")
			}
		})
	}}, Family{Name: "program", Orders: 2, Depth: 2, Body: func(c *Ctx) {
		// the whole program on the files of an earlier run
		paths := []string{"Vehicle.Speed", "Vehicle.CurrentLocation.Latitude", "Vehicle.CurrentLocation.Longitude", socPath}
		initial := `{"Vehicle":{"Speed":{"value":5,"timestamp":1},"CurrentLocation":{"Latitude":{"value":1.5,"timestamp":1},"Longitude":{"value":2.5,"timestamp":1}},` +
			`"Powertrain":{"TractionBattery":{"StateOfCharge":{"Current":{"value":80,"timestamp":1}}}},"Other":{"value":"x","timestamp":1}}}`
		step := []int64{1000, 100, 7000, 12345}[c.Choose(4)]
		n := []int{24, 150, 4, 61}[c.Choose(4)]
		answer := c.Choose(4) // where the window is
		c.own()
		if int64(n/2)*step < 10000 {
			c.Prune()
		}
		var l []change
		for i := range n {
			l = append(l, change{Op: "replace", Path: paths[(i*c.Depth)%4], Value: float64(i * 7 % 60), Timestamp: int64(i/2)*step + step})
		}
		if l[n-1].Timestamp-l[0].Timestamp < 10000 {
			c.Prune()
		}
		c.Log("%d changes %d ms apart", n, step)
		c.ceQuietly(func(dir string) {
			in := filepath.Join(dir, "results", "patch_experiment", "urban_traffic")
			for k, d := range []string{"20240101_000000", "20250301_101500", "20250301_101459", "20241231_235959"} {
				x := filepath.Join(in, d)
				os.MkdirAll(x, 0755)
				init, list := initial, l
				if k != 1 { // not the latest run
					init, list = `{"Vehicle":{"Speed":{"value":1,"timestamp":1}}}`, l[:1]
				}
				b, _ := json.Marshal(list)
				os.WriteFile(filepath.Join(x, "all_tson_patches.json"), b, 0644)
				os.WriteFile(filepath.Join(x, "initial_json.json"), []byte(init), 0644)
			}
			c.Step()
			zzrt.RandIntn = func(n int) int { return []int{0, n - 1, n / 2, n / 3}[answer] }
			exp.RunTemporalQueryExperiments()
			zzrt.RandIntn = nil
			r := c.experiment(filepath.Join(dir, "reference"), initial, l)
			res := filepath.Join(dir, "results", "temporal_query_experiment", "urban_traffic", "temporal_query")
			files, _ := filepath.Glob(filepath.Join(res, "*", "*.json"))
			count := map[string]int{}
			for _, f := range files {
				name := strings.TrimSuffix(filepath.Base(f), ".json")
				parts := strings.Split(name, "_")
				var got, want any
				c.readJSON(f, &got)
				set := func(v any) { b, _ := json.Marshal(v); json.Unmarshal(b, &want) }
				num := func(k int) int64 { v, _ := strconv.ParseInt(parts[len(parts)-k], 10, 64); return v }
				kind := parts[0] + " " + parts[1]
				count[kind]++
				switch kind {
				case "snapshot logument":
					n, _ := r.m.tsnap(num(1))
					set(n.toT())
				case "snapshot tjson":
					set(at(r.es, num(1)).toJ())
				case "track tjson":
					i, _ := strconv.Atoi(parts[2])
					want := inWindow(r.es[paths[i]], num(2), num(1))
					if l, ok := got.([]any); !ok || len(l) != len(want) {
						c.Failf("%s holds %s, not %v", name, jsonStr(got), want)
					}
					continue
				case "track logument":
					i, _ := strconv.Atoi(parts[2])
					ops, class := r.inWindow(paths[i], num(2), num(1))
					k := 0
					for _, m := range class {
						if m == keep {
							k++
						}
					}
					total := 0
					if m, ok := got.(map[string]any); ok {
						for _, v := range m {
							if l, ok := v.([]any); ok {
								total += len(l)
							}
						}
					}
					if total != k {
						c.Failf("%s holds %s, not %s", name, jsonStr(got), opsStr(ops))
					}
					continue
				case "event logument", "event tjson":
					thr, _ := strconv.ParseFloat(parts[len(parts)-3], 64)
					out := []int64{}
					if num(1)-num(2) != 10000 || num(2) < l[0].Timestamp || num(1) > l[n-1].Timestamp {
						c.Failf("%s is no window of ten seconds within %d to %d", name, l[0].Timestamp, l[n-1].Timestamp)
					}
					if kind == "event tjson" {
						for _, e := range inWindow(r.es[paths[0]], num(2), num(1)) {
							if f, ok := e.v.(float64); ok && f > thr {
								out = append(out, e.from)
							}
						}
					} else {
						ops, class := r.inWindow(paths[0], num(2), num(1))
						for k, op := range ops {
							if f, ok := op.Value.(float64); ok && f > thr && class[k] == keep {
								out = append(out, op.Timestamp)
							}
						}
					}
					set(out)
				}
				if !reflect.DeepEqual(got, want) {
					c.Failf("%s holds %s, not %s", name, jsonStr(got), jsonStr(want))
				}
			}
			for name, k := range map[string]struct {
				kind string
				rows int
			}{"snapshot": {"TemporalSnapshot", 61}, "track": {"TemporalTrack", 4}, "event_search": {"EventSearch", 3}} {
				rows := c.table(filepath.Join(res, name+"_results.csv"))
				if len(rows) != k.rows {
					c.Failf("the table of %s results has %d rows, not %d", name, len(rows), k.rows)
				}
				for i, w := range rows {
					if w.scenario != "urban_traffic" || w.kind != k.kind {
						c.Failf("row %d of the %s results is %q", i, name, w)
					}
					if name == "snapshot" {
						if f := filepath.Join(res, "logument", fmt.Sprintf("snapshot_logument_%d_%s.json", i, w.parameter)); !slices.Contains(files, f) {
							c.Failf("row %d of the snapshot results is of %s, for which there is no file", i, w.parameter)
						}
					}
				}
			}
			for kind, n := range map[string]int{"snapshot logument": 61, "snapshot tjson": 61, "track logument": 4, "track tjson": 4, "event logument": 3, "event tjson": 3} {
				if count[kind] != n {
					c.Failf("there are %d files of %s, not %d", count[kind], kind, n)
				}
			}
		})
	}})
}

func init() {
	register(&Prop{ID: "C23", Families: tjFamilies, Assumptions: []string{
		"values are strings, numbers and booleans, times are not negative, names have no dots, and no path has a value while a path above or below it has one",
		"neighbouring ranges of the same value may be reported as one or as two when changes of one time lie between",
	}})
	register(&Prop{ID: "C24", Assumptions: []string{
		"times do not go back, the cooldown is the one of a new state, and a new state counts as switched at time zero",
		"the behaviour of a scenario is the one the signal table names, with the parameters of a vehicle that starts in it",
	}, Families: func(tier string) []Family {
		some := []string{"urban_traffic", "battery_charging"}
		return []Family{
			scenarioFamily("steps", 2, 2, some, batteries, pauses, false),
			scenarioFamily("long", 4, 3, some[:1], []float64{10, 99.95, 50}, []int64{60000, 59999, 1}, false),
			scenarioFamily("other-starts", 2, 1, []string{"highway_cruising", "mixed_scenario", ""}, batteries, pauses, false),
			scenarioFamily("no-battery", 2, 2, some, []float64{10, 99.95}, pauses, true),
		}
	}})
	register(&Prop{ID: "C25", Families: simFamilies, Assumptions: []string{
		"random numbers are a stream of distinct answers from which the stated number of answers deviate to the extremes of their range, or constant or alternating extremes; update intervals are positive",
		"signal sets replace the built-in signal table, which is explored with whole streams only",
	}})
	register(&Prop{ID: "C28", Families: ceFamilies, Assumptions: []string{
		"changes can be applied to the state before them and have times from zero on, which do not go back other than for snapshots; queried paths exist in both documents and are written as in the changes",
		"in the comparison document, arrays are objects of their indices, and null values and empty containers are absent",
	}})
}
