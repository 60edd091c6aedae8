package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/zzrt"
)

// ---- C29: simulated values follow their pattern ------------------------

const (
	accelPath    = "Vehicle.Acceleration.Longitudinal"
	steeringPath = "Vehicle.Chassis.SteeringWheel.Angle"
	brakePath    = "Vehicle.Chassis.Brake.PedalPosition"
	pedalPath    = "Vehicle.Chassis.Accelerator.PedalPosition"
	latPath      = "Vehicle.CurrentLocation.Latitude"
	lonPath      = "Vehicle.CurrentLocation.Longitude"
	speedPath    = "Vehicle.Speed"
	leftPath     = "Vehicle.Body.Lights.TurnSignal.Left.IsActive"
	rightPath    = "Vehicle.Body.Lights.TurnSignal.Right.IsActive"
	chargePath   = "Vehicle.Powertrain.TractionBattery.Charging.IsCharging"
	ratePath     = "Vehicle.Powertrain.TractionBattery.Charging.ChargingRate"
	remainPath   = "Vehicle.Powertrain.TractionBattery.Charging.TimeRemaining"
	temperPath   = "Vehicle.Powertrain.TractionBattery.Temperature"
)

// motion is how a signal moves in a scenario.
type motion struct {
	pattern       string
	first, spread float64 // a number that starts in first..first+spread
	start         any     // anything else
	slope, step   float64
	lo, hi        float64
	base, amp     float64
	period        float64
	probability   float64
}

// motionOf is the reference for the motion of a signal.
func motionOf(s *exp.VSSSensor, scenario string) motion {
	m := motion{pattern: "constant", start: s.DefaultValue, lo: s.Min, hi: s.Max, probability: 0.05}
	if f, ok := s.DefaultValue.(float64); ok {
		m.first, m.start = f, nil
		m.base = f
	}
	if p, ok := s.ChangePatterns[scenario]; ok {
		m.pattern = p
	}
	span := s.Max - s.Min
	high, medium := s.Category == exp.SensorTypeHigh, s.Category == exp.SensorTypeMedium
	pedal, lamp := s.Category == exp.ActuatorTypeHigh, s.Category == exp.ActuatorTypeLow
	urban, highway, charging := scenario == "urban_traffic", scenario == "highway_cruising", scenario == "battery_charging"
	switch m.pattern {
	case "random_walk":
		m.step = span * 0.01
	case "constant_with_noise":
		m.step = span * 0.01
	case "linear":
		m.slope = -0.04
		switch {
		case charging && s.Path == socPath:
			m.slope = 0.1
		case charging && s.Path == remainPath:
			m.slope = -0.5
		case strings.Contains(s.Path, "Battery") && urban:
			m.slope = -0.1
		case strings.Contains(s.Path, "Battery") && highway:
			m.slope = -0.2
		}
	case "sinusoidal":
		m.amp, m.period, m.base = span*0.1, 5000, (s.Min+s.Max)*0.5
	}
	at := func(v, spread float64) { m.first, m.spread, m.start = v, spread, nil }
	switch {
	case urban && high && s.Path == speedPath:
		at(40, 20)
		m.step, m.lo, m.hi = 2, 0, 70
	case urban && high && (s.Path == latPath || s.Path == lonPath):
		m.step = 1
	case urban && high && s.Path == steeringPath && m.pattern == "sinusoidal":
		m.amp, m.period, m.base = 15, 10000, 0
	case urban && high && s.Path == accelPath && m.pattern == "random_walk":
		m.step, m.lo, m.hi = 0.5, -3, 2
	case urban && pedal && s.Path == brakePath:
		m.step = 5
	case urban && pedal && s.Path == pedalPath:
		m.step = 3
	case urban && lamp && (s.Path == leftPath || s.Path == rightPath):
		m.probability = 0.02
	case highway && high && s.Path == speedPath:
		at(90, 20)
		m.base, m.step = 100, 0.5
	case highway && high && s.Path == steeringPath:
		m.base, m.step = 0, 0.2
	case highway && high && s.Path == accelPath:
		at(0, 0)
		m.base, m.step = 0, 0.1
	case highway && high && (s.Path == latPath || s.Path == lonPath):
		m.slope = 0.1
	case highway && pedal && s.Path == brakePath:
		at(0, 0)
		m.probability = 0.01
	case highway && pedal && s.Path == pedalPath:
		at(25, 0)
		m.base, m.step = 25, 0.5
	case highway && lamp && (s.Path == leftPath || s.Path == rightPath):
		m.probability = 0.005
	case charging && (high && (s.Path == speedPath || s.Path == steeringPath || s.Path == accelPath) || pedal && (s.Path == brakePath || s.Path == pedalPath)):
		at(0, 0)
	case charging && medium && s.Path == socPath:
		at(20, 20)
		m.slope = 0.2
	case charging && medium && s.Path == temperPath:
		m.slope = 0.001
	case charging && medium && s.Path == chargePath:
		m.start = true
	case charging && medium && s.Path == ratePath:
		at(11, 2)
		m.amp, m.period, m.base = 1, 15000, 11.5
	case charging && medium && s.Path == remainPath:
		if f, ok := s.DefaultValue.(float64); !ok || f <= 0 {
			at(120, 60)
		}
		m.slope = -0.05
	}
	if s.Type != "number" && m.pattern != "toggle" || s.Type == "number" && m.pattern == "toggle" || s.Type == "string" {
		m.pattern = "constant"
	}
	return m
}

const slack = 1e-9

// next are the values a number may take on, from lo to hi.
func (m *motion) next(cur float64, s *exp.VSSSensor, t int64, answer float64) (lo, hi float64) {
	clamp := func(v float64) float64 { return min(max(v, m.lo), m.hi) }
	random := func(centre float64) (float64, float64) {
		if answer >= 0 {
			v := centre + (2*answer-1)*m.step
			return v, v
		}
		return centre - m.step, centre + m.step
	}
	switch m.pattern {
	case "random_walk":
		lo, hi = random(cur)
		return clamp(lo), clamp(hi)
	case "constant_with_noise":
		return random(m.base)
	case "linear":
		v := clamp(cur + m.slope*float64(s.UpdateInterval)/1000)
		return v, v
	case "sinusoidal":
		v := m.base + m.amp*math.Sin(2*math.Pi*float64(t)/m.period)
		return v, v
	}
	return cur, cur
}

// checkMotion decides C29 for the files of one scenario. answer is what every
// random number was, or negative.
func (c *Ctx) checkMotion(answer float64) func(root, scenario string, signals map[string]*exp.VSSSensor) {
	return func(root, scenario string, signals map[string]*exp.VSSSensor) {
		found, _ := filepath.Glob(filepath.Join(root, scenario, "*", "initial_tson.json"))
		if len(found) != 1 {
			c.Failf("%s: there are %d initial documents", scenario, len(found))
		}
		var first map[string]any
		var changes []change
		c.readJSON(found[0], &first)
		c.readJSON(filepath.Join(filepath.Dir(found[0]), "all_tson_patches.json"), &changes)
		c.Step()
		by := map[string][]change{}
		for _, ch := range changes {
			p := dotted(ch.Path)
			if signals[p] == nil {
				c.Failf("%s: %q changes, which is no signal", scenario, ch.Path)
			}
			by[p] = append(by[p], ch)
		}
		for _, p := range sortedNames(signals) {
			s := signals[p]
			m := motionOf(s, scenario)
			holder, k := holder(first, p)
			l, _ := holder[k].(map[string]any)
			cur := l["value"]
			fail := func(format string, args ...any) {
				c.Failf("%s: %s of pattern %s: %s", scenario, p, s.ChangePatterns[scenario], fmt.Sprintf(format, args...))
			}
			if m.start != nil {
				if !reflect.DeepEqual(cur, m.start) {
					fail("it starts with %v, not %v", cur, m.start)
				}
			} else {
				f, ok := cur.(float64)
				lo, hi := m.first, m.first+m.spread
				if answer >= 0 {
					lo = m.first + answer*m.spread
					hi = lo
				}
				if !ok || f < lo-slack || f > hi+slack {
					fail("it starts with %v, not within %v to %v", cur, lo, hi)
				}
			}
			l2 := by[p]
			for t := int64(0); t < 300000; t += 100 {
				if t%int64(s.UpdateInterval) != 0 {
					continue
				}
				var ch *change
				if len(l2) > 0 && l2[0].Timestamp == t {
					ch = &l2[0]
					l2 = l2[1:]
				}
				if f, ok := cur.(float64); ok && s.Type == "number" {
					lo, hi := m.next(f, s, t, answer)
					if ch == nil {
						// differences under 0.005 are no changes
						if lo > f+0.005+slack || hi < f-0.005-slack {
							fail("it stays at %v at %d and does not go to %v", f, t, lo)
						}
						continue
					}
					g, ok := ch.Value.(float64)
					if !ok || g < lo-slack || g > hi+slack || math.Abs(g-f) < 0.005-slack {
						fail("it goes from %v to %v at %d, not to a value from %v to %v", f, ch.Value, t, lo, hi)
					}
					cur = g
					continue
				}
				if b, ok := cur.(bool); ok && m.pattern == "toggle" && (ch == nil || ch.Value == !b) {
					if answer >= 0 && (answer < m.probability) != (ch != nil) {
						fail("it changes at %d: %v, although its probability is %v and the random number %v", t, ch != nil, m.probability, answer)
					}
				} else if ch != nil {
					fail("it goes from %v to %v at %d", cur, ch.Value, t)
				}
				if ch != nil {
					cur = ch.Value
				}
			}
			if len(l2) > 0 {
				fail("it changes at %d", l2[0].Timestamp)
			}
		}
		c.State(scenario + fmt.Sprint(len(changes), changesStr(changes[:min(len(changes), 20)])))
	}
}

func motionWorlds() []map[string]*exp.VSSSensor {
	set := func(l ...*exp.VSSSensor) map[string]*exp.VSSSensor {
		m := map[string]*exp.VSSSensor{}
		for _, s := range l {
			m[s.Path] = s
		}
		return m
	}
	high, medium, low, pedal, lamp, attr := exp.SensorTypeHigh, exp.SensorTypeMedium, exp.SensorTypeLow, exp.ActuatorTypeHigh, exp.ActuatorTypeLow, exp.AttributeType
	return append(simWorlds(),
		set(simSignal(speedPath, 5.0, high, 30000, 0, 220, "random_walk", "constant_with_noise", "constant"), simSignal(accelPath, 1.0, high, 50000, -20, 20, "random_walk", "constant_with_noise", "constant")),
		set(simSignal(brakePath, 3.0, pedal, 60000, 0, 100, "random_walk", "toggle", "constant"), simSignal(pedalPath, 7.0, pedal, 50000, 0, 100, "random_walk", "constant_with_noise", "random_walk")),
		set(simSignal(latPath, 37.5, high, 20000, -90, 90, "random_walk", "linear", "linear"), simSignal(lonPath, 179.9, high, 30000, -180, 180, "random_walk", "linear", "constant")),
		set(simSignal(socPath, 75.0, medium, 30000, 0, 100, "linear", "linear", "linear"), simSignal(remainPath, 0.0, medium, 40000, 0, 500, "constant", "constant", "linear"),
			simSignal(ratePath, 0.0, medium, 7000, 0, 350, "constant", "linear", "sinusoidal")),
		set(simSignal(leftPath, false, lamp, 30000, 0, 0, "toggle", "toggle", "constant"), simSignal(rightPath, true, lamp, 50000, 0, 0, "toggle", "toggle", "toggle"), simSignal("V.On", true, lamp, 50000, 0, 0, "toggle", "toggle", "toggle")),
		set(simSignal(temperPath, 25.0, medium, 30000, 24.9, 25.05, "linear", "constant_with_noise", "linear"), simSignal(chargePath, false, medium, 50000, 0, 0, "constant", "constant", "constant"),
			simSignal(steeringPath, 10.0, high, 1300, -180, 180, "sinusoidal", "constant_with_noise", "constant")),
		// outside their range, at its ends, and in other groups than usual
		set(simSignal("V.Over", 50.0, low, 40000, 0, 10, "random_walk", "linear", "constant"), simSignal("V.Under", -50.0, medium, 40000, 0, 10, "linear", "random_walk", "sinusoidal"),
			simSignal("V.Edge", 10.0, attr, 40000, 0, 10, "random_walk", "linear", "random_walk")),
		set(simSignal(speedPath, 5.0, low, 30000, 0, 220, "random_walk", "constant_with_noise", "linear"), simSignal(brakePath, 3.0, high, 60000, 0, 100, "random_walk", "random_walk", "random_walk"),
			simSignal(leftPath, false, medium, 30000, 0, 0, "toggle", "toggle", "toggle")),
		set(simSignal(temperPath, 5000.0, medium, 10000, 0, 10000, "linear", "linear", "linear"), simSignal(latPath, 5000.0, high, 100000, 0, 10000, "linear", "linear", "linear"), simSignal("V.Odd", 5.0, high, 1225, 0, 1000, "linear", "random_walk", "linear"),
			simSignal("V.Prime", 7.0, low, 3700, 0, 1000, "linear", "linear", "constant_with_noise")),
		set(simSignal("V.Text", "a", attr, 50000, 0, 0, "constant", "linear", "toggle"), simSignal("V.Num", 4.0, low, 50000, 0, 9, "toggle", "unknown"), simSignal("V.None", 4.5, low, 100000, 0, 9), simSignal("V.Yes", true, low, 70000, 0, 1, "linear", "random_walk", "toggle")),
		// thousands of updates
		set(simSignal("V.Walk", 5000.0, high, 100, 0, 10000, "random_walk", "linear", "constant_with_noise"), simSignal("V.Wave", 5.0, low, 100, -1000, 1000, "sinusoidal", "random_walk", "linear"),
			simSignal("V.Flip", false, lamp, 100, 0, 0, "toggle", "toggle", "toggle")),
	)
}

var constantAnswers = []float64{0, 0.5, 1 - 1.0/(1<<53), 0.004, 0.005, 0.007, 0.015, 0.03, 0.05, 0.0500001, 0.25, 0.75, 0.499, 0.9}

var controlled func() bool

// decided says whether the checker decides every random number of the
// simulation, which it does unless the code draws them in a way that the
// instrumentation does not know.
func (c *Ctx) decided() bool {
	if controlled == nil {
		controlled = sync.OnceValue(func() bool {
			f, g := zzrt.RandFloat, zzrt.RandIntn
			defer func() { zzrt.RandFloat, zzrt.RandIntn = f, g }()
			total := 0
			for p, def := range map[string]any{"random_walk": 5.0, "constant_with_noise": 5.0, "toggle": false} {
				w := map[string]*exp.VSSSensor{"V.X": simSignal("V.X", def, exp.SensorTypeLow, 10000, 0, 100, p, p, p)}
				calls := 0
				outcome := func(a float64) string {
					setRandom(func() float64 { calls++; return a }, func(n int) int { calls++; return int(a * float64(n)) })
					out := ""
					c.simulateFor(w, nil, func(root, scenario string, _ map[string]*exp.VSSSensor) {
						found, _ := filepath.Glob(filepath.Join(root, scenario, "*", "all_tson_patches.json"))
						for _, f := range found {
							b, _ := os.ReadFile(f)
							out += string(b)
						}
					})
					return out
				}
				if outcome(0.001) != outcome(0.001) {
					return false
				}
				total += calls
			}
			return total > 0
		})
	}
	return controlled()
}

func motionFamilies(tier string) []Family {
	const limit = 1 << 40
	const base = int64(1700000000123456789)
	constant := func(a float64) {
		if a < 0 {
			setRandom(nil, nil)
			return
		}
		setRandom(func() float64 { return a }, func(n int) int { return int(a * float64(n)) })
	}
	var out []Family
	out = append(out, Family{Name: "same-answers", Limit: limit, Orders: 2, Body: func(c *Ctx) {
		i := c.Choose(len(motionWorlds()))
		a := constantAnswers[c.Choose(len(constantAnswers))]
		c.own()
		c.Log("signal set %d, every random number is %v", i, a)
		if !c.decided() {
			a = -1
		}
		c.clock(base, 700)
		constant(a)
		c.simulateFor(motionWorlds()[i], nil, c.checkMotion(a))
	}})
	out = append(out, Family{Name: "catalog", Limit: limit, Weight: 2, Depth: 3, Extra: len(constantAnswers) - 2, Body: func(c *Ctx) {
		a := -1.0
		if c.Depth <= len(constantAnswers) && c.decided() {
			a = constantAnswers[c.Depth-1]
		}
		c.own()
		c.Log("every random number is %v", a)
		c.clock(base, 1000)
		if a < 0 {
			c.randomness(c.Depth, 0)
		} else {
			constant(a)
		}
		c.simulateFor(exp.VSSSensors, nil, c.checkMotion(a))
	}})
	// deviations from a stream of distinct answers
	calls := map[string]int{}
	return append(out, Family{Name: "answers", Limit: limit, Depth: 2, Extra: 1, Orders: 2, Weight: 2, Body: func(c *Ctx) {
		ws := motionWorlds()
		i := c.Choose(len(ws))
		if i == 4 || i == len(ws)-1 {
			c.Prune() // thousands of random numbers
		}
		c.clock(base, 700)
		n := 0
		if c.Depth > 1 {
			key := fmt.Sprint(i, c.orderMode)
			if calls[key] == 0 {
				count := c.deviations(0, 0, 0)
				c.simulateFor(ws[i], nil, func(string, string, map[string]*exp.VSSSensor) {})
				calls[key] = *count + 4
			}
			n = calls[key]
		}
		salt := 0
		if c.Depth == 1 {
			salt = c.Choose(6)
		}
		c.Log("signal set %d stream %d", i, salt)
		c.deviations(salt, n, c.Depth-1)
		c.own()
		c.simulateFor(motionWorlds()[i], nil, c.checkMotion(-1))
	}})
}

// ---- C30: recorded curves and stored files -----------------------------

func vehicleGroups(v *exp.VehicleData) []map[string]*exp.SensorData {
	return []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes}
}

func emptyVehicle() *exp.VehicleData {
	g := func() map[string]*exp.SensorData { return map[string]*exp.SensorData{} }
	return &exp.VehicleData{SensorsHighFreq: g(), SensorsMedFreq: g(), SensorsLowFreq: g(), ActuatorsHighVar: g(), ActuatorsLowVar: g(), Attributes: g()}
}

// curve reads the recorded curve of a signal.
func (c *Ctx) curve(root, scenario, path string) [][]string {
	name := filepath.Join(root, scenario, "sensor_data", path+".csv")
	b, err := os.ReadFile(name)
	if err != nil {
		c.Failf("the curve of %s is missing: %v", path, err)
	}
	rows, err := csv.NewReader(strings.NewReader(string(b))).ReadAll()
	if err != nil || len(rows) == 0 {
		c.Failf("the curve of %s is not valid: %v\n%s", path, err, head(string(b), 400))
	}
	if !slices.Equal(rows[0], []string{"TimestampMs", "SimulationTimeMs", "Value"}) {
		c.Failf("the curve of %s has the columns %v", path, rows[0])
	}
	return rows[1:]
}

// curveValue says whether a text in a curve stands for a value.
func curveValue(s string, v any) bool {
	if f, ok := v.(float64); ok {
		g, err := strconv.ParseFloat(s, 64)
		return err == nil && math.Abs(f-g) <= 0.00005+math.Abs(f)*1e-12
	}
	return s == fmt.Sprint(v)
}

type curvePoint struct {
	t     int64
	v     any
	clock int64
}

func (c *Ctx) checkCurve(root, scenario, path string, want []curvePoint, timed bool) {
	rows := c.curve(root, scenario, path)
	for i, r := range rows {
		if i >= len(want) || r[1] != fmt.Sprint(want[i].t) || !curveValue(r[2], want[i].v) {
			c.Failf("%s: the curve of %s has the row %v as number %d of %d; recorded were %v", scenario, path, r, i, len(rows), want[min(i, len(want)):min(i+1, len(want))])
		}
		if e, err := strconv.ParseInt(r[0], 10, 64); timed && (err != nil || e != want[i].clock) {
			c.Failf("%s: the curve of %s says row %v was recorded %s ms after the start, not %d", scenario, path, r, r[0], want[i].clock)
		}
	}
	if len(rows) != len(want) {
		c.Failf("%s: the curve of %s has %d points, not %d", scenario, path, len(rows), len(want))
	}
}

var curvePaths = []string{"V.Speed", "V.Lights.Left", "V.Lights.Left.On", "Name"}

// recording explores a recorder.
func recording(c *Ctx) {
	c.inTempDir(func(dir string) {
		old := exp.KeySensorPaths
		defer func() { exp.KeySensorPaths = old }()
		keys := [][]string{curvePaths[:1], curvePaths[:3], {curvePaths[3], curvePaths[0]}, {}}[c.Choose(4)]
		exp.KeySensorPaths = keys
		now := int64(1700000000123456789)
		read, timed := 0, true // whether the clock is the checker's
		tick := func() {
			read = 0
			zzrt.Clock = func() time.Time { read++; return time.Unix(0, now) }
		}
		v := emptyVehicle()
		var log []string
		put := func(group int, path string, val any) {
			vehicleGroups(v)[group][path] = &exp.SensorData{Path: path, Value: val}
		}
		where := map[string]int{}
		for i, p := range curvePaths {
			where[p] = []int{0, 4, 2, 5}[i]
		}
		put(0, curvePaths[0], 1.5)
		put(4, curvePaths[1], true)
		want := map[string]map[string][]curvePoint{} // of each recorder
		recorders := map[string]*exp.SensorDataRecorder{}
		begun := map[string]int64{}
		open := func(s string) {
			done := c.quiet()
			defer done()
			tick()
			r, err := exp.NewSensorDataRecorder(dir, s)
			if err != nil {
				c.Failf("there is no recorder: %v", err)
			}
			recorders[s], begun[s] = r, now
			want[s] = map[string][]curvePoint{}
			timed = timed && read > 0
			c.Step()
		}
		closeIt := func(s string) {
			done := c.quiet()
			defer done()
			recorders[s].Close()
			delete(recorders, s)
			c.Step()
		}
		open("a")
		t := int64(0)
		values := []any{2.00005, -0.25, 1e6, 0.0, true, "x,y \"z\"\nnew" + strings.Repeat(" long", 30), 12345678.87654}
		for range c.Depth {
			switch k := c.Choose(7); k {
			case 0, 1, 6: // record
				t += []int64{0: 100, 1: 1000, 6: 1<<32 + 100}[k]
				now += 250_000_000
				tick()
				for s, r := range recorders {
					if err := r.RecordSensorData(t, v); err != nil {
						c.Failf("recording fails: %v", err)
					}
					for _, p := range keys {
						if d, ok := vehicleGroups(v)[where[p]][p]; ok {
							want[s][p] = append(want[s][p], curvePoint{t, d.Value, (now - begun[s]) / 1_000_000})
						}
					}
				}
				log = append(log, fmt.Sprintf("record at %d", t))
			case 2: // another value
				p := curvePaths[c.Choose(len(curvePaths))]
				val := values[c.Choose(len(values))]
				if d := vehicleGroups(v)[where[p]][p]; d != nil {
					d.Value = val
				} else {
					put(where[p], p, val)
				}
				log = append(log, fmt.Sprintf("%s is %v", p, val))
			case 3: // gone or in another group
				p := curvePaths[c.Choose(2)]
				delete(vehicleGroups(v)[where[p]], p)
				if g := c.Choose(7); g < 6 {
					where[p] = g
					put(g, p, 7.25)
					log = append(log, fmt.Sprintf("%s is in group %d", p, g))
				} else {
					log = append(log, p+" is gone")
				}
			case 4:
				if recorders["b"] != nil {
					c.Prune()
				}
				open("b")
				log = append(log, "a second recorder")
			case 5: // a new recording of the same scenario
				closeIt("a")
				open("a")
				log = append(log, "a new recording")
			}
		}
		c.Log("keys %v; %s", keys, strings.Join(log, "; "))
		for _, s := range sortedNames(recorders) {
			closeIt(s)
		}
		for _, s := range sortedNames(want) {
			for _, p := range keys {
				c.checkCurve(dir, s, p, want[s][p], timed)
			}
			found, _ := filepath.Glob(filepath.Join(dir, s, "sensor_data", "*"))
			if len(found) != len(keys) {
				c.Failf("there are %d curves, not %d: %v", len(found), len(keys), found)
			}
		}
		c.State(fmt.Sprint(want))
	})
}

// checkCurves compares the curves of a simulation with its documents.
func (c *Ctx) checkCurves(keys []string) func(root, scenario string, signals map[string]*exp.VSSSensor) {
	return func(root, scenario string, signals map[string]*exp.VSSSensor) {
		found, _ := filepath.Glob(filepath.Join(root, scenario, "*", "initial_tson.json"))
		if len(found) != 1 {
			c.Failf("%s: there are %d initial documents", scenario, len(found))
		}
		var first map[string]any
		var changes []change
		c.readJSON(found[0], &first)
		c.readJSON(filepath.Join(filepath.Dir(found[0]), "all_tson_patches.json"), &changes)
		c.Step()
		for _, p := range keys {
			if signals[p] == nil {
				if rows := c.curve(root, scenario, p); len(rows) > 0 {
					c.Failf("%s: there is a curve of %s, which is no signal", scenario, p)
				}
				continue
			}
			h, k := holder(first, p)
			l, _ := h[k].(map[string]any)
			cur := l["value"]
			var want []curvePoint
			i := 0
			for t := int64(0); t < 300000; t += 100 {
				for ; i < len(changes) && changes[i].Timestamp < t; i++ {
					if dotted(changes[i].Path) == p {
						cur = changes[i].Value
					}
				}
				want = append(want, curvePoint{t: t, v: cur})
			}
			c.checkCurve(root, scenario, p, want, false)
		}
		c.State(scenario + fmt.Sprint(len(changes)))
	}
}

var storeKinds = []struct {
	name    string
	indexed bool
	file    string
	save    func(ds *exp.DataStorage, i int, v any) error
}{
	{"initial JSON", false, "initial_json.json", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveInitialJSON(v) }},
	{"initial TSON", false, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveInitialTSON(v) }},
	{"JSON patch", true, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveJSONPatch(i, v) }},
	{"TSON patch", true, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveTSONPatch(i, v) }},
	{"all JSON patches", false, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveAllJSONPatches(v) }},
	{"all TSON patches", false, "all_tson_patches.json", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveAllTSONPatches(v) }},
	{"final JSON", false, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveFinalJSON(v) }},
	{"final TSON", false, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveFinalTSON(v) }},
	{"JSON snapshot", true, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveJSONSnapshot(int64(i), v) }},
	{"TSON snapshot", true, "", func(ds *exp.DataStorage, i int, v any) error { return ds.SaveTSONSnapshot(int64(i), v) }},
}

var storeIndices = []int{0, 1, 10, 12, 9999, 10000, 123456789, 1000000012, 1<<32 + 1}

// storing explores the storage of a run.
func storing(c *Ctx) {
	c.inTempDir(func(dir string) {
		now := int64(1699956800123456789)   // in the morning
		want := map[string]map[string]any{} // directory, slot
		names := map[string]string{}
		var stores []*exp.DataStorage
		open := func(scenario string) {
			read := false
			zzrt.Clock = func() time.Time { read = true; return time.Unix(0, now) }
			ds := exp.NewDataStorage(dir, scenario)
			c.Step()
			if !read && len(stores) > 0 { // the time is not the checker's
				c.Prune()
			}
			for _, o := range stores {
				if o.OutputDir == ds.OutputDir {
					c.Failf("two runs are stored in %s", ds.OutputDir)
				}
			}
			if in, err := filepath.Rel(filepath.Join(dir, scenario), ds.OutputDir); err != nil || strings.HasPrefix(in, "..") || in == "." {
				c.Failf("a run of %s is stored in %s", scenario, ds.OutputDir)
			}
			stores = append(stores, ds)
			want[ds.OutputDir] = map[string]any{}
		}
		open("city")
		var log []string
		for n := range c.Depth {
			switch c.Choose(2) {
			case 0:
				ds := stores[len(stores)-1-c.Choose(len(stores))]
				k := storeKinds[c.Choose(len(storeKinds))]
				i := 0
				slot := k.name
				if k.indexed {
					i = storeIndices[c.Choose(len(storeIndices))]
					slot = fmt.Sprint(k.name, " ", i)
				}
				v := []any{
					map[string]any{"n": float64(n), "v": map[string]any{"value": 1.5, "_ts": 3.0}, "<&>": nil},
					[]any{float64(n), "x\"y\n", true},
					exp.JsonDoc{"n": float64(n), "s": strings.Repeat("x", 40*max(0, 3-n))}, // shorter than before
					[]exp.TsonPatch{{Op: "replace", Path: "a.b", Value: float64(n), Timestamp: 1<<53 + 1}},
					[]exp.JsonPatch{},
					[]any{},
				}[c.Choose(6)]
				log = append(log, fmt.Sprintf("save %s in %s", slot, filepath.Base(filepath.Dir(ds.OutputDir))))
				c.Step()
				if err := k.save(ds, i, v); err != nil {
					c.Failf("saving fails: %v", err)
				}
				want[ds.OutputDir][slot] = v
				if k.file != "" {
					names[slot] = k.file
				}
				// what cannot be written gives an error and leaves everything
				if err := k.save(ds, i+1, map[string]any{"f": func() {}}); err == nil {
					c.Failf("what cannot be written is saved without an error")
				}
			case 1:
				scenario := []string{"city", "road"}[c.Choose(2)]
				k := c.Choose(6)
				for range 1 + k/5*9 {
					now += []int64{1_000_000_000, 86400_000_000_000, 43200_000_000_000, 3600_000_000_000, 60_000_000_000, 7_000_000_000}[k]
					open(scenario)
					log = append(log, "another run")
				}
			}
		}
		c.Log("%s", strings.Join(log, "; "))
		for _, ds := range stores {
			var have, need []string
			files, _ := filepath.Glob(filepath.Join(ds.OutputDir, "*"))
			for _, f := range files {
				b, _ := os.ReadFile(f)
				have = append(have, canonicalJSON(b))
			}
			for slot, v := range want[ds.OutputDir] {
				b, _ := json.Marshal(v)
				need = append(need, canonicalJSON(b))
				if names[slot] != "" {
					if got, err := os.ReadFile(filepath.Join(ds.OutputDir, names[slot])); err != nil || canonicalJSON(got) != canonicalJSON(b) {
						c.Failf("%s does not hold the %s: %v %s\n%s", names[slot], slot, err, got, strings.Join(log, "; "))
					}
				}
			}
			sort.Strings(have)
			sort.Strings(need)
			if !slices.Equal(have, need) {
				c.Failf("the files hold\n  %s\nsaved were\n  %s\n%s", strings.Join(have, "\n  "), strings.Join(need, "\n  "), strings.Join(log, "; "))
			}
		}
		c.State(strings.Join(log, ";"))
	})
}

// canonicalJSON is a form in which equal JSON texts are equal.
func canonicalJSON(b []byte) string {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "invalid: " + string(b)
	}
	if _, err := d.Token(); err != io.EOF {
		return "more than one: " + string(b)
	}
	out, _ := json.Marshal(v)
	return string(out)
}

func init() {
	register(&Prop{ID: "C29", Families: motionFamilies, Assumptions: []string{
		"the patterns are those of the built-in signal table; number signals have number defaults, and strings do not change",
		"with one answer for every random number each recorded change is predicted exactly, with other streams numbers are bounded and switches may or may not happen",
		"differences under 0.005 are not changes of a value",
	}})
	register(&Prop{ID: "C30", Assumptions: []string{
		"a signal is in one group, and names can be file names; time does not stand still between two runs of one scenario",
	}, Families: func(tier string) []Family {
		const limit = 1 << 40
		const base = int64(1700000000123456789)
		return []Family{
			{Name: "recorder", Depth: 3, Extra: 1, Orders: 2, Body: recording},
			{Name: "storage", Depth: 2, Extra: 1, Body: storing},
			{Name: "simulation", Limit: limit, Orders: 2, Depth: 2, Extra: 1, Body: func(c *Ctx) {
				i := c.Choose(len(motionWorlds()))
				salt := c.Depth
				keys := sortedNames(motionWorlds()[i])
				keys = append(keys[:min(2, len(keys))], "V.Absent")
				c.own()
				c.Log("signal set %d stream %d", i, salt)
				c.clock(base, 700)
				c.randomness(salt, 0)
				c.simulateFor(motionWorlds()[i], keys, c.checkCurves(keys))
			}},
			{Name: "catalog", Limit: limit, Depth: 1, Extra: 2, Body: func(c *Ctx) {
				c.own()
				c.clock(base, 1000)
				c.randomness(c.Depth, 0)
				c.simulateFor(exp.VSSSensors, nil, c.checkCurves(slices.Clone(exp.KeySensorPaths)))
			}},
		}
	}})
}
