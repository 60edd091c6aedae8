package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/CAU-CPSS/logument/internal/vssgen"
)

// C31: the forms in which a program gets a generated dataset.

// fromMap reads a document from nested maps, where a leaf is a map of a value
// and a timestamp.
func fromMap(v any) *N {
	switch v := v.(type) {
	case map[string]any:
		if t, ok := v["timestamp"]; ok && len(v) == 2 {
			if x, ok := v["value"]; ok {
				n := fromJ(x)
				switch t := t.(type) {
				case int64:
					n.ts = t
				case int:
					n.ts = int64(t)
				case float64:
					n.ts = int64(t)
				case json.Number:
					n.ts, _ = t.Int64()
				default:
					return &N{k: '?', s: fmt.Sprintf("%T", t)}
				}
				if !n.leaf() {
					return &N{k: '?', s: fmt.Sprintf("%T", x)}
				}
				return n
			}
		}
		n := &N{k: 'o', o: map[string]*N{}}
		for k, x := range v {
			n.o[k] = fromMap(x)
		}
		return n
	case []any:
		n := &N{k: 'a'}
		for _, x := range v {
			n.a = append(n.a, fromMap(x))
		}
		return n
	}
	return &N{k: '?', s: fmt.Sprintf("%T", v)}
}

// rounded has the times that are left when they are read as plain JSON.
func rounded(n *N) *N {
	m := *n
	m.ts = int64(float64(n.ts))
	if n.o != nil {
		m.o = map[string]*N{}
		for k, v := range n.o {
			m.o[k] = rounded(v)
		}
	}
	m.a = nil
	for _, v := range n.a {
		m.a = append(m.a, rounded(v))
	}
	return &m
}

// trimmed leaves out empty objects.
func trimmed(n *N) *N {
	if n.k != 'o' {
		return n
	}
	m := &N{k: 'o', o: map[string]*N{}}
	for k, v := range n.o {
		if v = trimmed(v); v.k != 'o' || len(v.o) > 0 {
			m.o[k] = v
		}
	}
	return m
}

// listed are the places of a document which are listed as leaves.
func listed(n *N, path string, out map[string]*N) map[string]*N {
	if n.k != 'o' {
		out[path] = n
		return out
	}
	for k, v := range n.o {
		p := k
		if path != "" {
			p = path + "." + k
		}
		listed(v, p, out)
	}
	return out
}

func (c *Ctx) saved(v *vssgen.VssJson, dir string) []byte {
	f := filepath.Join(dir, "saved")
	v.Save(f)
	b, err := os.ReadFile(f)
	if err != nil {
		c.Failf("a dataset is not saved: %v", err)
	}
	os.Remove(f)
	return b
}

// form checks one of the forms of a generated document against its file.
func (c *Ctx) form(k int, v *vssgen.VssJson, doc *N) {
	c.Step()
	bad := func(what string, got *N, want *N) {
		c.Failf("%s differs from the saved document\n  got  %s\n  want %s", what, head(got.String(), 1500), head(want.String(), 1500))
	}
	switch k {
	case 0:
		if got := fromMap(v.GetData()); !eq(got, doc) {
			bad("GetData", got, doc)
		}
	case 1:
		m, err := v.ToMapStringInterface()
		if err != nil {
			c.Failf("ToMapStringInterface fails: %v\ndocument %s", err, head(doc.String(), 1000))
		}
		if got, want := fromMap(m), rounded(doc); !eq(got, want) {
			bad("ToMapStringInterface", got, want)
		}
		spoil(m) // it is the caller's
	case 2:
		m, err := v.BuildFromLeafNodes()
		if err != nil {
			c.Failf("BuildFromLeafNodes fails: %v\ndocument %s", err, head(doc.String(), 1000))
		}
		if got, want := fromMap(m), trimmed(doc); !eq(got, want) {
			bad("BuildFromLeafNodes", got, want)
		}
	case 3:
		want, seen := listed(doc, "", map[string]*N{}), map[string]bool{}
		for _, m := range v.LeafNodes() {
			for path, x := range m {
				if seen[path] {
					c.Failf("LeafNodes has %s twice", path)
				}
				seen[path] = true
				if want[path] == nil {
					c.Failf("LeafNodes has %s, which is no leaf of %s", path, head(doc.String(), 1000))
				}
				if got := fromMap(x); !eq(got, want[path]) {
					bad("LeafNodes at "+path, got, want[path])
				}
			}
		}
		for path, n := range want {
			if !seen[path] && (n.k != 'o' || len(n.o) > 0) {
				c.Failf("LeafNodes lacks %s of %s", path, head(doc.String(), 1000))
			}
		}
	}
}

// spoil changes a map everywhere.
func spoil(m map[string]any) {
	for k, v := range m {
		switch v := v.(type) {
		case map[string]any:
			spoil(v)
		case []any:
			for _, x := range v {
				if x, ok := x.(map[string]any); ok {
					spoil(x)
				}
			}
		default:
			m[k] = "spoiled"
		}
	}
	m["more"] = "spoiled"
}

// forms generates a chain and looks at its documents in between and again at
// the end.
func (c *Ctx) forms(catalog string, r rates, files int, plan func(i int) []int) {
	dir := c.tempDir()
	defer os.RemoveAll(dir)
	v := vssgen.NewVssJson(catalog)
	type item struct {
		v    *vssgen.VssJson
		text []byte
		doc  *N
	}
	var items []item
	d := v.Generate(r.size, 1)
	for j := 1; ; j++ {
		c.Step()
		it := item{v: d, text: c.saved(d, dir)}
		t, err := parseText(it.text)
		if err != nil {
			c.Failf("document %d does not parse: %v", j, err)
		}
		it.doc = fromT(t)
		items = append(items, it)
		for _, k := range plan(j) {
			c.form(k, d, it.doc)
		}
		c.State(it.doc.String())
		if j == files {
			break
		}
		var p *vssgen.VssJson
		d, p = d.GenerateNext(r.change, r.maintain, 1, j+1)
		if l := p.LeafNodes(); l != nil {
			c.Failf("a patch has the leaf nodes %v", l)
		}
	}
	for i, it := range items {
		t, err := parseText(c.saved(it.v, dir))
		if err != nil || !sameDoc(t, it.doc) {
			c.Failf("document %d of %d is saved differently later: %v\n  before %s\n  after  %s", i+1, len(items), err, head(it.doc.String(), 1500), head(fromT(t).String(), 1500))
		}
		for k := range 4 {
			c.form(k, it.v, it.doc)
		}
	}
}

func formFamilies(string) []Family {
	const base = int64(1700000000123456789)
	return []Family{
		{Name: "signal-types", Depth: 2, Extra: 1, Body: func(c *Ctx) {
			i := c.Choose(len(signalTypes))
			r := chainRates[c.Choose(len(chainRates))]
			c.own()
			c.Log("signal type %s rates %v", signalTypes[i].name, r)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1000)
			c.randomness(i, c.Depth-1)
			j := map[string]any{"V": branch(signalTypes[i].name, sig(i), "B", branch("Other", sig(i)))}
			c.forms(c.writeCatalog(dir, j), r, 3, func(int) []int { return []int{0, 1, 2, 3} })
		}},
		{Name: "plans", Orders: 2, Depth: 2, Extra: 1, Body: func(c *Ctx) { // which forms are asked for in between, and in which order
			cats := smallCatalogs()
			i := c.Choose(len(cats))
			r := []rates{{1, .5, .2}, {.5, 1, 0}}[c.Choose(2)]
			plans := make([][]int, 3)
			for j := range plans {
				for range c.Depth - 1 {
					if k := c.Choose(5); k < 4 {
						plans[j] = append(plans[j], k)
					} else {
						break
					}
				}
			}
			c.own()
			c.Log("catalog %d rates %v plan %v", i, r, plans)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock([]int64{base, 1<<53 + 1, 7}[i%3], 1)
			c.randomness(i, 0)
			c.forms(c.writeCatalog(dir, cats[i]), r, 3, func(j int) []int { return plans[j-1] })
		}},
		{Name: "orders", Depth: 1, Extra: 1, OrderDev: 2, OrderMax: 4, Body: func(c *Ctx) {
			cats := smallCatalogs()
			i := c.Choose(len(cats))
			c.Log("catalog %d", i)
			dir := c.tempDir()
			defer os.RemoveAll(dir)
			c.clock(base, 1)
			c.randomness(i, 0)
			c.orderDev = c.Depth
			c.forms(c.writeCatalog(dir, cats[i]), rates{1, .4, .2}, 2, func(int) []int { return nil })
		}},
		{Name: "real-catalog", Limit: 1 << 40, Weight: 2, Orders: 2, Depth: 2, Extra: 4, Body: func(c *Ctx) {
			r := []rates{{1, .2, 0}, {1, 1, 0}, {.1, .2, .2}}[c.Choose(3)]
			c.own()
			c.Log("rates %v stream %d", r, c.Depth)
			c.clock(base, 1000)
			c.randomness(c.Depth, 0)
			c.forms(repoCatalog, r, 2, func(j int) []int { return []int{j % 4} })
		}},
	}
}

// C32: the options of a dataset and the directory it is written to.

func init() {
	commands["options"] = func(args []string) {
		os.Args = append([]string{"logument"}, args[1:]...)
		flag.CommandLine = flag.NewFlagSet("logument", flag.ExitOnError)
		out := os.Stdout
		os.Stdout = os.Stderr
		o := vssgen.ParseArgs(args[0])
		b, err := json.Marshal(map[string]any{"options": o, "types": typesOf(o), "rest": flag.Args()})
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(out, "\nRESULT %s\n", b)
	}
}

func typesOf(o map[string]any) map[string]string {
	out := map[string]string{}
	for k, v := range o {
		out[k] = fmt.Sprintf("%T", v)
	}
	return out
}

var optionNames = []string{"dataset", "cars", "files", "change_rate", "maintain_rate", "size"}
var optionTypes = map[string]string{"dataset": "string", "cars": "int", "files": "int", "change_rate": "float64", "maintain_rate": "float64", "size": "float64"}

// optionTexts are ways of writing an option; nil is none, a NaN no valid one.
var optionTexts = map[string][]struct {
	text string
	want any
}{
	"dataset":       {{"", nil}, {"other/vss 2.json", "other/vss 2.json"}, {"--x=\"é\"", "--x=\"é\""}},
	"cars":          {{"", nil}, {"3", 3.0}, {"0", 0.0}, {"-1", math.NaN()}, {"12", 12.0}, {"x", math.NaN()}},
	"files":         {{"", nil}, {"2", 2.0}, {"0", 0.0}, {"-5", math.NaN()}, {"1.5", math.NaN()}, {"100", 100.0}},
	"change_rate":   {{"", nil}, {"0", 0.0}, {"1", 1.0}, {"0.30", 0.3}, {".x", math.NaN()}},
	"maintain_rate": {{"", nil}, {"0.5", 0.5}, {"1e-3", 0.001}},
	"size":          {{"", nil}, {"0", 0.0}, {"0.25", 0.25}, {"1", 1.0}},
}
var optionDefaults = map[string]any{"change_rate": 0.2, "maintain_rate": 0.0, "size": 1.0}

// options parses one command line in a process of its own.
func (c *Ctx) options(def string, chosen map[string]int, order []string, style int) {
	want := map[string]any{"dataset": def}
	for k, v := range optionDefaults {
		want[k] = v
	}
	ok := true
	args := []string{"options", def}
	for _, name := range order {
		o := optionTexts[name][chosen[name]]
		if o.want == nil {
			if name == "cars" || name == "files" {
				ok = false
			}
			continue
		}
		if f, isNum := o.want.(float64); isNum && math.IsNaN(f) {
			ok = false
		}
		want[name] = o.want
		dash := []string{"-", "--"}[style&1]
		if style&2 == 0 {
			args = append(args, dash+name+"="+o.text)
		} else {
			args = append(args, dash+name, o.text)
		}
	}
	c.Log("arguments %q, %v expected", args[2:], ok)
	c.own()
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = c.tempDir()
	defer os.RemoveAll(cmd.Dir)
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err = c.child(cmd, 40)
	c.Step()
	i := strings.LastIndex(so.String(), "\nRESULT ")
	if !ok {
		if err == nil || i >= 0 {
			c.Failf("the arguments %q are accepted although the number of cars or files is missing or an option is wrong: %s", args[2:], so.String())
		}
		c.State("refused")
		return
	}
	if err != nil || i < 0 {
		c.Failf("the arguments %q are refused: %v %s", args[2:], err, head(se.String(), 1000))
	}
	var got struct {
		Options map[string]any
		Types   map[string]string
	}
	if err := json.Unmarshal([]byte(so.String()[i+8:]), &got); err != nil {
		panic("harness: " + err.Error())
	}
	if !reflect.DeepEqual(got.Options, want) {
		c.Failf("the arguments %q give the options %s, not %s", args[2:], jsonStr(got.Options), jsonStr(want))
	}
	if !reflect.DeepEqual(got.Types, optionTypes) {
		c.Failf("the options have the types %v, not %v", got.Types, optionTypes)
	}
	c.State(jsonStr(got.Options))
}

// tree lists everything below a directory.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			out[rel] = "error"
			return nil
		}
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			out[rel] = "link " + to
		case info.IsDir():
			out[rel] = "directory"
		default:
			b, _ := os.ReadFile(p)
			out[rel] = "file " + string(b)
		}
		return nil
	})
	return out
}

// The things that may stand in the output directory.
var contents = []string{"file", ".hidden", "car_1/tson/1_1.tson", "empty/", "metadata.json", "a/b/c/d/e", "link>../keep", "link>../keep/file", "lost>nowhere", "car_1/link>../../keep", "locked-file"}

func put(base, what string) {
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	if i := strings.IndexByte(what, '>'); i >= 0 {
		p := filepath.Join(base, what[:i])
		must(os.MkdirAll(filepath.Dir(p), 0755))
		os.Remove(p)
		must(os.Symlink(what[i+1:], p))
		return
	}
	p := filepath.Join(base, what)
	if strings.HasSuffix(what, "/") {
		must(os.MkdirAll(p, 0755))
		return
	}
	must(os.MkdirAll(filepath.Dir(p), 0755))
	mode := os.FileMode(0644)
	if what == "locked-file" {
		mode = 0
	}
	must(os.WriteFile(p, []byte("content of "+what), mode))
}

func (c *Ctx) outputDir(name string, kind int, in []string, style int, alone bool) {
	c.Log("output directory %q of kind %d with %q, named in way %d, alone: %v", name, kind, in, style, alone)
	c.own()
	dir := c.tempDir()
	defer os.RemoveAll(dir)
	for _, s := range []string{"keep/file", "keep/dir/file", name + "2/file", name + ".json", "dataset/other/file", "x/keep"} {
		if s != name && !strings.HasPrefix(s, name+"/") && (!alone || strings.HasPrefix(s, "keep/")) {
			put(dir, s)
		}
	}
	target := filepath.Join(dir, name)
	switch kind {
	case 0: // nothing
	case 1:
		put(dir, name+"/")
		for _, s := range in {
			put(target, s)
		}
	case 2: // a link to a directory
		os.MkdirAll(filepath.Dir(target), 0755)
		if os.Symlink(filepath.Join(dir, "keep"), target) != nil {
			panic("harness: no link")
		}
	}
	before := tree(dir)
	defer c.quiet()()
	wd, _ := os.Getwd()
	defer os.Chdir(wd)
	os.Chdir(dir)
	arg := name
	switch style {
	case 1:
		arg = "./" + name
	case 2:
		arg = target
	case 3:
		arg = target + "/"
	case 4:
		arg = "keep/../" + name
	}
	c.Step()
	vssgen.PrepareOutputDir(arg)
	after := tree(dir)
	if after[name] != "directory" {
		c.Failf("there is no output directory: %s", after[name])
	}
	for p, what := range after {
		if strings.HasPrefix(p, name+"/") {
			c.Failf("the output directory still has %s", p)
		}
		if p != name && before[p] != what && !(what == "directory" && strings.HasPrefix(name, p+"/")) {
			c.Failf("%s has become %q, it was %q", p, what, before[p])
		}
	}
	for p, what := range before {
		if p != name && !strings.HasPrefix(p, name+"/") && after[p] != what {
			c.Failf("%s is lost or changed: %q, it was %q", p, after[p], what)
		}
	}
	if os.WriteFile(filepath.Join(target, "new"), nil, 0644) != nil {
		c.Failf("no file can be made in the output directory")
	}
	c.State(jsonStr(after))
}

func metadataOf(c *Ctx) map[string]any {
	return map[string]any{
		"dataset":       []string{"internal/vssgen/vss.json", "a\"b\\c <é>&.json", ""}[c.Choose(3)],
		"cars":          []int{0, 7, 1 << 40}[c.Choose(3)],
		"files":         []int{0, 123456789}[c.Choose(2)],
		"change_rate":   []float64{0, 0.1 + 0.2, 1e-9}[c.Choose(3)],
		"maintain_rate": []float64{0, 0.5}[c.Choose(2)],
		"size":          []float64{1, 0.3}[c.Choose(2)],
	}
}

func (c *Ctx) metadata(m map[string]any, old int) {
	c.Log("options %v over an old file of kind %d", m, old)
	c.own()
	dir := c.tempDir()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "metadata.json")
	put(dir, "other")
	if old > 0 {
		os.WriteFile(file, []byte(strings.Repeat("{\"old\": 1}\n", []int{0, 1, 100}[old])), 0644)
	}
	before := jsonStr(m)
	c.Step()
	vssgen.SaveMetadata(m, dir)
	if jsonStr(m) != before {
		c.Failf("SaveMetadata changes the options")
	}
	b, err := os.ReadFile(file)
	if err != nil {
		c.Failf("there is no metadata: %v", err)
	}
	var got, want map[string]any
	json.Unmarshal([]byte(before), &want)
	if err := json.Unmarshal(b, &got); err != nil || !reflect.DeepEqual(got, want) {
		c.Failf("the metadata is %s, not %s: %v", head(string(b), 1000), before, err)
	}
	if t := tree(dir); len(t) != 3 || t["other"] != "file content of other" {
		c.Failf("saving the metadata changes other files: %v", t)
	}
	c.State(string(b))
}

func optionFamilies(string) []Family {
	return []Family{
		{Name: "arguments", Depth: 2, Weight: 4, Extra: 3, Body: func(c *Ctx) { // up to Depth options other than in the plain case
			chosen := map[string]int{"cars": 1, "files": 1}
			style := c.Choose(4)
			left := c.Depth
			for _, name := range optionNames {
				if left == 0 {
					break
				}
				if k := c.Choose(len(optionTexts[name])); k != chosen[name] {
					chosen[name] = k
					left--
				}
			}
			order := append([]string{}, optionNames...)
			if c.Bool() {
				for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
					order[i], order[j] = order[j], order[i]
				}
			}
			c.options([]string{"internal/vssgen/vss.json", "d"}[style&1], chosen, order, style)
		}},
		{Name: "directory", Depth: 1, Extra: 2, Body: func(c *Ctx) {
			name := []string{"dataset", "out", "x/y/z", "dataset/out", "new/sub", "é dir", "data*", "out."}[c.Choose(8)]
			style := c.Choose(5)
			kind := c.Choose(3)
			var in []string
			if kind == 1 {
				for range c.Depth {
					if k := c.Choose(len(contents) + 1); k > 0 {
						in = append(in, contents[k-1])
					} else {
						break
					}
				}
			}
			if kind == 2 && style == 3 {
				c.Prune()
			}
			for i := range in {
				for j := range in {
					if i != j && strings.SplitN(in[i], ">", 2)[0] == strings.SplitN(in[j], ">", 2)[0] {
						c.Prune()
					}
				}
			}
			c.outputDir(name, kind, in, style, len(in) == 0 && c.Bool()) // alone: parents may be missing
		}},
		{Name: "metadata", Body: func(c *Ctx) { c.metadata(metadataOf(c), c.Choose(3)) }},
	}
}

func init() {
	register(&Prop{ID: "C31", Families: formFamilies, Assumptions: []string{
		"catalogs have the form of vss.json; names have no dots, are no index in brackets and are not value, timestamp or children",
		"times read through plain JSON are those a float64 holds; a signal of a type that gets no value has no leaf",
	}})
	register(&Prop{ID: "C32", Families: optionFamilies, Assumptions: []string{
		"the output directory is a directory, a link to one written without a slash at its end, or missing, and the user may remove what is in it",
	}})
}
