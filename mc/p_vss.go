package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
	"github.com/CAU-CPSS/logument/internal/zzrt"
)

const repoCatalog = "/repo/internal/vssgen/vss.json"

// catalog is what the reference model knows about a signal catalog.
type signal struct {
	path     []string
	datatype string
	unit     string
	allowed  []string
}

// readCatalog walks the catalog on its own.
func readCatalog(j map[string]any) map[string]*signal {
	out := map[string]*signal{}
	var walk func(path []string, n map[string]any)
	walk = func(path []string, n map[string]any) {
		if ch, ok := n["children"].(map[string]any); ok {
			for k, v := range ch {
				walk(append(append([]string{}, path...), k), v.(map[string]any))
			}
			return
		}
		s := &signal{path: path}
		s.datatype, _ = n["datatype"].(string)
		s.unit, _ = n["unit"].(string)
		if al, ok := n["allowed"].([]any); ok {
			for _, a := range al {
				s.allowed = append(s.allowed, a.(string))
			}
		}
		out[strings.Join(path, ".")] = s
	}
	for k, v := range j {
		walk([]string{k}, v.(map[string]any))
	}
	return out
}

// signal types of the catalog; the name is used as the signal's name.
var signalTypes = []struct {
	name string
	meta map[string]any
}{
	{"Bool", map[string]any{"datatype": "boolean"}},
	{"Int8", map[string]any{"datatype": "int8"}},
	{"Int8Percent", map[string]any{"datatype": "int8", "unit": "percent", "min": -100.0, "max": 100.0}},
	{"Int16", map[string]any{"datatype": "int16", "unit": "degrees"}},
	{"Int32", map[string]any{"datatype": "int32"}},
	{"Uint8", map[string]any{"datatype": "uint8"}},
	{"Uint8Percent", map[string]any{"datatype": "uint8", "unit": "percent"}},
	{"Uint16", map[string]any{"datatype": "uint16", "unit": "s"}},
	{"Uint32", map[string]any{"datatype": "uint32", "unit": "m"}},
	{"Float", map[string]any{"datatype": "float", "unit": "km/h"}},
	{"FloatPercent", map[string]any{"datatype": "float", "unit": "percent", "min": 0.0, "max": 100.0}},
	{"Double", map[string]any{"datatype": "double", "min": -90.0, "max": 90.0}},
	{"String", map[string]any{"datatype": "string"}},
	{"Enum", map[string]any{"datatype": "string", "allowed": []any{"OFF <&>", "ON \"q\"\u2028", "TEST"}}},
	{"Enum1", map[string]any{"datatype": "string", "allowed": []any{"ONLY"}}},
	{"Strings", map[string]any{"datatype": "string[]"}},
	{"Enums", map[string]any{"datatype": "string[]", "allowed": []any{"A", "B"}}},
	{"Floats", map[string]any{"datatype": "float[]"}},
	{"Uint8s", map[string]any{"datatype": "uint8[]"}},
}

func sig(i int) map[string]any {
	m := map[string]any{"type": "sensor", "uuid": "0123456789abcdef", "description": "A signal."}
	if i%2 == 1 {
		m["comment"] = "With a comment."
	}
	for k, v := range signalTypes[i].meta {
		m[k] = v
	}
	return m
}

func branch(kv ...any) map[string]any {
	ch := map[string]any{}
	for i := 0; i < len(kv); i += 2 {
		ch[kv[i].(string)] = kv[i+1]
	}
	return map[string]any{"type": "branch", "uuid": "fedcba9876543210", "description": "A branch.", "children": ch}
}

// value checks C27 for one place of a document.
func (s *signal) accepts(n *N) bool {
	t, list := strings.CutSuffix(s.datatype, "[]")
	if list && n.k == 'a' {
		for _, e := range n.a {
			if !(&signal{datatype: t, unit: s.unit, allowed: s.allowed}).accepts(e) {
				return false
			}
		}
		return len(n.a) > 0
	}
	if list && len(s.allowed) == 0 {
		return false
	}
	percent := s.unit == "percent"
	switch t {
	case "boolean":
		return n.k == 'b'
	case "string":
		if len(s.allowed) > 0 {
			for _, a := range s.allowed {
				if n.k == 's' && n.s == a {
					return true
				}
			}
			return false
		}
		return n.k == 's'
	case "float", "double":
		return n.k == 'n' && (!percent || n.f >= 0 && n.f <= 100)
	case "int8", "int16", "int32":
		return n.k == 'n' && n.f == math.Trunc(n.f) && (!percent || n.f >= 0 && n.f <= 100)
	case "uint8", "uint16", "uint32":
		return n.k == 'n' && n.f == math.Trunc(n.f) && n.f >= 0 && (!percent || n.f <= 100)
	}
	return true
}

func supported(s *signal) bool {
	switch s.datatype {
	case "boolean", "string", "float", "double", "int8", "int16", "int32", "uint8", "uint16", "uint32", "float[]", "string[]", "uint8[]":
		return true
	}
	return false
}

// conforms checks C27 for a document.
func conforms(doc *N, cat map[string]*signal, size float64) string {
	seen := 0
	bad := ""
	var walk func(n *N, path []string)
	walk = func(n *N, path []string) {
		name := strings.Join(path, ".")
		s := cat[name]
		switch {
		case bad != "":
		case s != nil && !supported(s):
		case s != nil:
			seen++
			if !s.accepts(n) {
				bad = fmt.Sprintf("the signal %s of type %s %s %v has the value %v", name, s.datatype, s.unit, s.allowed, n)
			}
		case n.k != 'o':
			bad = fmt.Sprintf("%q with the value %v is no signal of the catalog", name, n)
		default:
			for _, k := range n.keys() {
				walk(n.o[k], append(append([]string{}, path...), k))
			}
			if len(n.o) == 0 && len(path) > 0 {
				bad = fmt.Sprintf("%q has no signals", name)
			}
		}
	}
	walk(doc, nil)
	if bad != "" {
		return bad
	}
	want := 0
	for _, s := range cat {
		if supported(s) {
			want++
		}
	}
	if size == 1 && seen != want {
		for name, s := range cat {
			if _, ok, _ := doc.get(s.path); !ok && supported(s) {
				return fmt.Sprintf("the signal %s is missing", name)
			}
		}
	}
	if size == 0 && seen != 0 {
		return "there are signals although the size is zero"
	}
	return ""
}

// singles are the single-valued leaves of a document.
func singles(doc *N) map[string]*N {
	out := map[string]*N{}
	var walk func(n *N, path string)
	walk = func(n *N, path string) {
		if n.leaf() {
			out[path] = n
		}
		for _, k := range n.keys() {
			walk(n.o[k], path+"/"+k)
		}
	}
	walk(doc, "")
	return out
}

// countDiff counts the leaves which differ.
func countDiff(a, b *N) int {
	if a != nil && b != nil && a.k == b.k && !a.leaf() {
		n := 0
		for k, v := range a.o {
			n += countDiff(v, b.o[k])
		}
		for k, v := range b.o {
			if a.o[k] == nil {
				n += countDiff(nil, v)
			}
		}
		for i := range max(len(a.a), len(b.a)) {
			var x, y *N
			if i < len(a.a) {
				x = a.a[i]
			}
			if i < len(b.a) {
				y = b.a[i]
			}
			n += countDiff(x, y)
		}
		return n
	}
	if a != nil && b != nil && eq(a, b) {
		return 0
	}
	return 1
}

type rates struct{ size, change, maintain float64 }

// world of random answers: a stream of distinct answers from which up to dev
// answers deviate to the extremes.
func (c *Ctx) randomness(salt, dev int) {
	n := uint64(salt)
	mix := func() uint64 {
		n += 0x9e3779b97f4a7c15
		z := n
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return (z ^ z>>31) >> 11
	}
	left := dev
	zzrt.RandFloat = func() float64 {
		v := float64(mix()) / (1 << 53)
		if left > 0 {
			if k := c.Choose(4); k > 0 {
				left--
				return []float64{0, 0.5, 1 - 1.0/(1<<53)}[k-1]
			}
		}
		return v
	}
	zzrt.RandIntn = func(m int) int {
		v := int(mix() % uint64(m))
		if left > 0 && m > 1 {
			if k := c.Choose(3); k > 0 {
				left--
				return []int{0, m - 1}[k-1]
			}
		}
		return v
	}
}

// clock advances by step at every reading.
func (c *Ctx) clock(base int64, step int64) {
	now := base
	zzrt.Clock = func() time.Time {
		now += step
		return time.Unix(0, now)
	}
}

func (c *Ctx) quiet() func() {
	e, o := os.Stderr, os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr, os.Stdout = null, null
	}
	return func() {
		os.Stderr, os.Stdout = e, o
		null.Close()
	}
}

func (c *Ctx) tempDir() string {
	d, err := os.MkdirTemp(c.w.scratch, "d")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func (c *Ctx) writeCatalog(dir string, j map[string]any) string {
	name := filepath.Join(dir, "catalog.json")
	b, _ := json.Marshal(j)
	if os.WriteFile(name, b, 0644) != nil {
		panic("harness: cannot write the catalog")
	}
	return name
}

// carFiles reads what was written for one car and checks the chain (C21); it
// returns its documents.
func (c *Ctx) carFiles(name func(kind string, j int) string, files int, r rates, fresh bool) []*N {
	var docs []*N
	var prev *N
	for j := 1; j <= files; j++ {
		c.Step()
		tf, pf := name("tson", j), name("patches", j)
		b, err := os.ReadFile(tf)
		if err != nil {
			c.Failf("file %d is missing: %v", j, err)
		}
		t, err := parseText(b)
		if err != nil {
			c.Failf("file %d does not parse: %v\n%s", j, err, head(string(b), 1500))
		}
		doc := fromT(t)
		docs = append(docs, doc)
		p, err := os.ReadFile(pf)
		if err != nil {
			c.Failf("patch file %d is missing: %v", j, err)
		}
		if j == 1 {
			if t, err = parseText(p); err != nil || !sameDoc(t, doc) {
				c.Failf("the first patch file is not the initial document: %v\n%s\n%s", err, head(string(p), 700), head(string(b), 700))
			}
			prev = doc
			continue
		}
		if !json.Valid(p) {
			c.Failf("patch file %d is not valid JSON: %s", j, head(string(p), 1500))
		}
		ops, err := tsonpatch.Unmarshal(p)
		if err != nil {
			c.Failf("patch file %d does not parse: %v\n%s", j, err, head(string(p), 1500))
		}
		describe := func() string {
			return fmt.Sprintf("file %d with rates %v\n  document before %s\n  patch %s\n  document %s", j, r, head(prev.String(), 1200), head(opsStr(ops), 1200), head(doc.String(), 1200))
		}
		got, err := tsonpatch.ApplyPatch(prev.toT(), ops)
		if err != nil || !sameDoc(got, doc) {
			c.Failf("applying the patch of a file to the document before does not give its document: %v\n%s", err, describe())
		}
		if n, v := refPatch(prev, ops); v != vOK || !eq(n, doc) {
			c.Failf("the patch of a file does not lead to its document\n%s", describe())
		}
		if d := countDiff(prev, doc); len(ops) != d {
			c.Failf("%d leaves differ but there are %d changes\n%s", d, len(ops), describe())
		}
		seen := map[string]bool{}
		for _, op := range ops {
			if seen[op.Path] {
				c.Failf("two changes of %q\n%s", op.Path, describe())
			}
			seen[op.Path] = true
		}
		before, after := singles(prev), singles(doc)
		for _, path := range sortedNames(before) {
			x, y := before[path], after[path]
			if y == nil {
				c.Failf("%s is lost\n%s", path, describe())
			}
			if r.change == 0 && !eqn(x, y, false) {
				c.Failf("%s changes although the change rate is zero\n%s", path, describe())
			}
			if r.change == 0 && r.maintain == 0 && !eq(x, y) {
				c.Failf("%s changes although the rates are zero\n%s", path, describe())
			}
			if fresh && !eqn(x, y, false) && y.ts <= x.ts {
				c.Failf("%s has a new value but no new time\n%s", path, describe())
			}
			if fresh && r.change+r.maintain >= 1 && y.ts <= x.ts {
				c.Failf("%s gets no new time although the rates add up to one\n%s", path, describe())
			}
			if r.change == 1 && x.k == 'b' && y.b == x.b {
				c.Failf("%s keeps its value although the change rate is one\n%s", path, describe())
			}
		}
		prev = doc
	}
	return docs
}

func sortedNames[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// direct uses the generator step by step.
func (c *Ctx) direct(v *vssgen.VssJson, dir string, id, files int, r rates) func(kind string, j int) string {
	name := func(kind string, j int) string { return filepath.Join(dir, fmt.Sprintf("%d_%d.%s", id, j, kind)) }
	c.Step()
	d := v.Generate(r.size, id)
	d.Save(name("tson", 1))
	d.Save(name("patches", 1))
	for j := 2; j <= files; j++ {
		c.Step()
		next, p := d.GenerateNext(r.change, r.maintain, id, j)
		next.Save(name("tson", j))
		p.Save(name("patches", j))
		d = next
	}
	return name
}

var chainRates = []rates{{1, 0, 0}, {1, 1, 0}, {1, 0, 1}, {1, .5, .5}, {1, .3, .3}, {0, 1, 0}, {.5, .2, .1}, {.5, 1, 0}}

func smallCatalogs() []map[string]any {
	return []map[string]any{
		{"Vehicle": branch("Speed", sig(9), "ADAS", branch("ABS", branch("IsEnabled", sig(0), "Level", sig(13))))},
		{"V": branch("A", branch("B", sig(5), "BC", sig(12)), "AB", sig(7), "C", branch("D", branch("E", branch("F", sig(17)))))},
		{"Top": sig(1), "V": branch("x/y", sig(0), "m~n <&>", branch("é \"q\"", sig(11), "0", sig(15))), "W": branch("0", branch("1", sig(18)))},
		{"V": branch("Row1", branch("Pan", sig(2), "Mode", sig(16)), "Row2", branch("Pan", sig(6), "Mode", sig(14)), "Row", sig(10))},
		{"V": branch("childrenLock", sig(0), "children_", sig(9), "Children", branch("type", sig(2), "min", sig(12), "childrens", branch("X", sig(1)))), "Vchildren": branch("type", branch("datatype", sig(13), "description", sig(5)), "unit", sig(7), "allowed", sig(15), "value", sig(17), "uuid", sig(0))},
		{},
	}
}

func vssFamilies(tier string, check func(c *Ctx, docs []*N, cat map[string]*signal, r rates)) []Family {
	big, err := os.ReadFile(repoCatalog)
	var bigJSON map[string]any
	if err == nil {
		err = json.Unmarshal(big, &bigJSON)
	}
	var bigCat map[string]*signal
	if err == nil {
		bigCat = readCatalog(bigJSON)
	}
	const base = int64(1700000000123456789)
	return []Family{
		{Name: "signal-types", Depth: 2, Extra: 1, Body: func(c *Ctx) {
			i := c.Choose(len(signalTypes))
			r := chainRates[c.Choose(len(chainRates))]
			j := map[string]any{"V": branch(signalTypes[i].name, sig(i), "B", branch("Other", sig(i)))}
			c.Log("signal type %s rates %v", signalTypes[i].name, r)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1000)
			c.randomness(i, c.Depth-1)
			name := c.direct(vssgen.NewVssJson(c.writeCatalog(dir, j)), dir, 1, 3, r)
			check(c, c.carFiles(name, 3, r, true), readCatalog(j), r)
		}},
		{Name: "catalogs", Depth: 2, Extra: 1, Orders: 2, Body: func(c *Ctx) {
			cats := smallCatalogs()
			i := c.Choose(len(cats))
			r := chainRates[c.Choose(len(chainRates))]
			c.Log("catalog %d rates %v", i, r)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1)
			c.randomness(i, c.Depth-1)
			name := c.direct(vssgen.NewVssJson(c.writeCatalog(dir, cats[i])), dir, 1, 3, r)
			check(c, c.carFiles(name, 3, r, true), readCatalog(cats[i]), r)
		}},
		{Name: "orders", Depth: 1, Extra: 1, OrderDev: 2, OrderMax: 4, Body: func(c *Ctx) {
			cats := smallCatalogs()
			i := c.Choose(len(cats))
			r := rates{1, .4, .2}
			c.Log("catalog %d rates %v", i, r)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1)
			c.randomness(i, 0)
			c.orderDev = c.Depth
			v := vssgen.NewVssJson(c.writeCatalog(dir, cats[i]))
			name := c.direct(v, dir, 1, 3, r)
			check(c, c.carFiles(name, 3, r, true), readCatalog(cats[i]), r)
		}},
		{Name: "lengths", Body: func(c *Ctx) { // long chains, clocks
			cats := smallCatalogs()
			i := c.Choose(len(cats))
			r := chainRates[c.Choose(len(chainRates))]
			k := c.Choose(5)
			n := []int{1, 2, 4, 12, 30}[k]
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			start := []int64{base, 3, 1<<53 + 1, 1 << 62, base}[c.Choose(5)]
			step := []int64{1, 999999937, 0}[c.Choose(3)]
			c.Log("catalog %d rates %v files %d clock %d step %d", i, r, n, start, step)
			c.clock(start, step)
			c.randomness(n, 0)
			name := c.direct(vssgen.NewVssJson(c.writeCatalog(dir, cats[i])), dir, 1, n, r)
			check(c, c.carFiles(name, n, r, step > 0), readCatalog(cats[i]), r)
		}},
		{Name: "new-values", Body: func(c *Ctx) { // with change rate one, values are drawn again
			i := c.Choose(len(signalTypes))
			salt := c.Choose(3)
			j := map[string]any{"V": branch("S", sig(i))}
			c.Log("signal type %s", signalTypes[i].name)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1000)
			c.randomness(salt, 0)
			const n = 16
			r := rates{1, 1, 0}
			name := c.direct(vssgen.NewVssJson(c.writeCatalog(dir, j)), dir, 1, n, r)
			docs := c.carFiles(name, n, r, true)
			check(c, docs, readCatalog(j), r)
			first, changed := singles(docs[0])["/V/S"], false
			for _, d := range docs {
				if v := singles(d)["/V/S"]; first != nil && v != nil && !eqn(first, v, false) {
					changed = true
				}
			}
			if first != nil && !changed && signalTypes[i].name != "Enum1" {
				c.Failf("the value of a %s signal never changes in %d files although the change rate is one", signalTypes[i].name, n)
			}
		}},
		{Name: "datasets", Limit: 1 << 40, Body: func(c *Ctx) { // all files of all cars
			cats := smallCatalogs()
			i := c.Choose(len(cats))
			r := chainRates[c.Choose(len(chainRates))]
			size := c.Choose(21)
			cars, files := size%4, []int{0, 1, 2, 3, 11, 2}[size/4]
			if files == 0 && cars > 0 {
				c.Prune()
			}
			if size == 20 { // numbers of two and three digits
				cars, files = 12, 2
				if i == 0 {
					files = 103
				}
			}
			again := c.Bool()
			c.Log("catalog %d rates %v cars %d files %d again %v", i, r, cars, files, again)
			c.dataset(c.writeCatalog, cats[i], "", r, cars, files, again, check)
		}},
		{Name: "real-catalog", Limit: 1 << 40, Weight: 3, Orders: 2, Depth: 2, Extra: 4, Body: func(c *Ctx) {
			if bigCat == nil {
				c.Prune()
			}
			rs := []rates{{1, .2, 0}, {1, 1, 0}, {1, 0, 1}, {.1, .2, 0}, {.3, .3, .3}, {0, .5, 0}}
			r := rs[c.Choose(len(rs))]
			salt := c.Depth
			c.Log("rates %v stream %d", r, salt)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1000)
			c.randomness(salt, 0)
			name := c.direct(vssgen.NewVssJson(repoCatalog), dir, 1, 3, r)
			check(c, c.carFiles(name, 3, r, true), bigCat, r)
		}},
		{Name: "real-dataset", Limit: 1 << 40, Body: func(c *Ctx) {
			if bigCat == nil {
				c.Prune()
			}
			c.dataset(nil, bigJSON, repoCatalog, []rates{{.1, .2, 0}, {1, .2, .1}}[c.Choose(2)], 2, 3, false, check)
		}},
	}
}

// dataset generates a whole dataset the way the program does.
func (c *Ctx) dataset(write func(dir string, j map[string]any) string, j map[string]any, file string, r rates, cars, files int, again bool,
	check func(c *Ctx, docs []*N, cat map[string]*signal, r rates)) {
	dir := c.tempDir()
	defer os.RemoveAll(dir)
	if file == "" {
		file = write(dir, j)
	}
	out := filepath.Join(dir, "dataset")
	c.clock(1700000000123456789, 1000)
	c.randomness(cars+files, 0)
	run := func(cars, files int) {
		defer c.quiet()()
		opt := map[string]any{"dataset": file, "cars": cars, "files": files, "change_rate": r.change, "size": r.size, "maintain_rate": r.maintain}
		vssgen.PrepareOutputDir(out)
		vssgen.SaveMetadata(opt, out)
		vssgen.Generate(opt, out)
		c.Step()
	}
	if again {
		run(cars+1, files+1)
	}
	run(cars, files)
	cat := readCatalog(j)
	want := map[string]bool{"metadata.json": true}
	for i := 1; i <= cars; i++ {
		name := func(kind string, j int) string {
			ext := map[string]string{"tson": "tson", "patches": "json"}[kind]
			rel := fmt.Sprintf("car_%d/%s/%d_%d.%s", i, kind, i, j, ext)
			want[rel] = true
			return filepath.Join(out, rel)
		}
		check(c, c.carFiles(name, files, r, true), cat, r)
	}
	filepath.Walk(out, func(p string, info os.FileInfo, err error) error {
		if rel, _ := filepath.Rel(out, p); err == nil && !info.IsDir() && !want[rel] {
			c.Failf("the dataset has a file %s of an earlier dataset", rel)
		}
		return nil
	})
}

func init() {
	assume := []string{
		"catalogs have the form of vss.json with the data types it uses, names without dots, allowed values are strings",
		"random numbers are a stream of distinct answers from which the stated number of answers deviate to the extremes of their range; the clock advances between files or stands still",
		"whether a value drawn again differs from the one before is only decided over a chain of files, as chance may draw the same value",
	}
	register(&Prop{ID: "C21", Assumptions: assume, Families: func(tier string) []Family {
		return vssFamilies(tier, func(c *Ctx, docs []*N, cat map[string]*signal, r rates) {
			if len(docs) > 0 {
				c.State(docs[len(docs)-1].String())
			}
		})
	}})
	register(&Prop{ID: "C27", Assumptions: assume, Families: func(tier string) []Family {
		return vssFamilies(tier, func(c *Ctx, docs []*N, cat map[string]*signal, r rates) {
			for i, d := range docs {
				if msg := conforms(d, cat, r.size); msg != "" {
					c.Failf("document %d with size %v and rates %v %v: %s", i+1, r.size, r.change, r.maintain, msg)
				}
				c.State(d.String())
			}
		})
	}})
}

var _ = tson.Marshal
